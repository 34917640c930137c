package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

type forgery struct {
	name string
	b    *ledger.AccountBlock
}

// peer is an independent node that gets every block over the wire, in another order.
type peer struct {
	x      *runner
	r      *rand.Rand
	w      *sim.World
	n      *sim.Node
	queue  []*ledger.AccountBlock
	have   map[types.Hash]bool
	stolen *sim.Key
	cfg    config.Chain
}

func runC06(x *runner) {
	d := x.d
	cfg := config.Chain{VmLogAll: true, OpenPlugins: x.rnd.Intn(2) == 0}
	n, err := d.W.OpenCfg(d.NewDir("peer"), cfg)
	if err != nil {
		x.fail("peer-start", "%v", err)
		return
	}
	p := &peer{x: x, r: rand.New(rand.NewSource(x.rnd.Int63())), w: d.W, n: n, stolen: sim.MakeKey("stranger"), have: map[types.Hash]bool{}, cfg: cfg}
	defer func() { p.n.Close() }()
	d.Weights["rollback"], d.Weights["rollbackAcc"], d.Weights["restart"] = 0, 0, 0
	d.OnAccept = func(b *ledger.AccountBlock) {
		p.queue = append(p.queue, sim.Wire(b))
		if p.r.Intn(3) == 0 {
			p.deliver(1 + p.r.Intn(3))
		}
	}
	d.OnSnapshot = func(sb *ledger.SnapshotBlock, dropped []*ledger.AccountBlock) {
		if x.bad {
			return
		}
		gone := map[types.Hash]bool{}
		for _, b := range dropped {
			gone[b.Hash] = true
			delete(p.have, b.Hash) // may be produced again, identically
		}
		// everything the snapshot confirms must be delivered first
		for !x.bad {
			var todo []int
			for i, b := range p.queue {
				if e := sb.SnapshotContent[b.AccountAddress]; e != nil && b.Height <= e.Height {
					todo = append(todo, i)
				}
			}
			if len(todo) == 0 {
				break
			}
			before := len(p.queue)
			p.deliver(1)
			if len(p.queue) == before && !x.bad {
				x.fail("undeliverable", "blocks confirmed by snapshot %d cannot be delivered in any order", sb.Height)
			}
		}
		if x.bad {
			return
		}
		p.snapshot(sb)
		var rest []*ledger.AccountBlock
		for _, b := range p.queue {
			if !gone[b.Hash] {
				rest = append(rest, b)
			}
		}
		p.queue = rest
		if p.r.Intn(3) == 0 && !x.bad {
			x.offTurn(p.n, func(h types.Hash) bool { return p.have[h] })
		}
		if p.r.Intn(6) == 0 && !x.bad {
			p.compare()
		}
	}
	d.WarmUp()
	x.steps(140, 500, func(op string) {
		if p.r.Intn(60) == 0 && !x.bad {
			// the peer restarts: its unconfirmed blocks are delivered again
			for _, b := range d.S.Unconf {
				if p.have[b.Hash] {
					p.queue = append(p.queue, sim.Wire(b))
					delete(p.have, b.Hash)
				}
			}
			m, err := p.n.Restart(d.NewDir("peer"), true)
			if err != nil {
				x.fail("peer-restart", "%v", err)
				return
			}
			p.n = m
			x.r.Count("peer_restarts", 1)
		}
	})
	if !x.bad {
		p.compare()
	}
}

// ready lists queued blocks whose predecessors the peer has.
func (p *peer) ready() []int {
	inq := map[types.Hash]bool{}
	for _, b := range p.queue {
		inq[b.Hash] = true
		for _, s := range b.SendBlockList {
			inq[s.Hash] = true
		}
	}
	var out []int
	for i, b := range p.queue {
		if inq[b.PrevHash] || (b.IsReceiveBlock() && inq[b.FromBlockHash]) {
			continue
		}
		out = append(out, i)
	}
	return out
}

func (p *peer) deliver(k int) {
	for ; k > 0 && !p.x.bad; k-- {
		rd := p.ready()
		if len(rd) == 0 {
			return
		}
		i := rd[p.r.Intn(len(rd))]
		b := p.queue[i]
		if p.r.Intn(3) == 0 {
			p.forge(b)
			if p.x.bad {
				return
			}
		}
		p.queue = append(p.queue[:i:i], p.queue[i+1:]...)
		w := sim.Wire(b)
		if p.r.Intn(4) == 0 {
			// resource accounting is not signed: whatever the wire says must not matter
			w.Quota, w.QuotaUsed = uint64(p.r.Int63()), uint64(p.r.Int63())
			p.x.r.Count("tampered_accounting", 1)
		}
		if err := p.n.Accept(w); err != nil {
			p.x.fail("honest-refused", "the peer refuses an honest block (type %d, %s height %d): %v", b.BlockType, b.AccountAddress, b.Height, err)
			return
		}
		p.have[b.Hash] = true
		p.x.r.Eval("accept/"+b.Hash.String(), true)
		p.x.r.Count("accepted_by_peer", 1)
	}
}

// compare brings the peer up to date and compares the complete observable state.
func (p *peer) compare() {
	d := p.x.d
	for len(p.queue) > 0 && !p.x.bad {
		n := len(p.queue)
		p.deliver(1)
		if len(p.queue) == n && !p.x.bad {
			p.x.fail("undeliverable", "%d blocks cannot be delivered in any order", n)
		}
	}
	if p.x.bad {
		return
	}
	// unconfirmed blocks are ordered by arrival; everything else must agree
	want, got := sim.Fingerprint(d.A, sim.FPOpt{}), sim.Fingerprint(p.n, sim.FPOpt{})
	for _, k := range []string{"unconfirmed", "onroad-order"} {
		delete(want, k)
		delete(got, k)
	}
	if df := sim.Diff(want, got); len(df) > 0 {
		p.x.fail("nodes-disagree/"+diffKey(df), "two nodes with the same blocks disagree: %s", sim.Brief(df))
		return
	}
	p.x.r.Count("state_comparisons", 1)
	p.x.r.Count("facts_compared", int64(len(want)))
}

func (p *peer) cheap() string {
	h := p.n.Chain.GetLatestSnapshotBlock()
	return fmt.Sprintf("%s/%d", h.Hash, len(p.n.Chain.GetAllUnconfirmedBlocks()))
}

func (p *peer) forge(b *ledger.AccountBlock) {
	var fs []forgery
	if b.IsSendBlock() {
		fs = p.forgeSend(b)
	} else if types.IsContractAddr(b.AccountAddress) {
		fs = p.forgeContract(b)
	} else {
		fs = p.forgeReceive(b)
	}
	fs = append(fs, p.forgeCommon(b)...)
	p.r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	if len(fs) > 4 {
		fs = fs[:4]
	}
	full := p.r.Intn(25) == 0
	var before sim.FP
	if full {
		before = sim.Fingerprint(p.n, sim.FPOpt{})
	}
	c0 := p.cheap()
	for _, f := range fs {
		err := func() (err error) {
			defer func() {
				if e := recover(); e != nil {
					p.x.fail("forgery-panics/"+f.name, "verifying a forged block (%s) panics: %v", f.name, e)
				}
			}()
			var w *ledger.AccountBlock
			buf, e := f.b.Serialize()
			if e != nil {
				return e
			}
			w = &ledger.AccountBlock{}
			if e := w.Deserialize(buf); e != nil {
				return e
			}
			if string(sim.SerAB(w)) == string(sim.SerAB(b)) {
				return errors.New("the wire form does not carry the change")
			}
			return p.n.Accept(w)
		}()
		if p.x.bad {
			return
		}
		if err == nil {
			p.x.fail("forgery-accepted/"+f.name, "the peer accepted a forged block (%s) derived from %s type %d height %d: %s", f.name, b.AccountAddress, b.BlockType, b.Height, f.b.Hash)
			return
		}
		p.x.r.Eval(fmt.Sprintf("forged/%s/%d/%s", f.name, b.BlockType, b.Hash), true)
		p.x.r.Count("forged", 1)
		p.x.r.Count("forged."+f.name, 1)
	}
	if c1 := p.cheap(); c0 != c1 {
		p.x.fail("refused-but-changed", "refused forgeries changed the ledger: %s -> %s", c0, c1)
		return
	}
	if full {
		if df := sim.Diff(before, sim.Fingerprint(p.n, sim.FPOpt{})); len(df) > 0 {
			p.x.fail("refused-but-changed/"+diffKey(df), "refused forgeries changed the state: %s", sim.Brief(df))
		}
	}
}

func (p *peer) key(b *ledger.AccountBlock) *sim.Key {
	return p.w.ByAddr[types.PubkeyToAddress(b.PublicKey)]
}

func mutH(h types.Hash) types.Hash {
	h[7] ^= 0x10
	return h
}

// sealed makes a copy, changes it, and gives it a correct hash and signature of k.
func (p *peer) sealed(b *ledger.AccountBlock, k *sim.Key, f func(c *ledger.AccountBlock)) *ledger.AccountBlock {
	c := sim.Wire(b)
	f(c)
	for i, s := range c.SendBlockList {
		s.Hash = s.ComputeSendHash(c, uint8(i))
	}
	c.Hash = c.ComputeHash()
	if k != nil {
		c.Signature, c.PublicKey, _ = k.Sign(c.Hash.Bytes())
	}
	return c
}

// fields changes one committed field.
func (p *peer) fields(b *ledger.AccountBlock) []forgery {
	var out []forgery
	add := func(n string, f func(c *ledger.AccountBlock)) {
		c := sim.Wire(b)
		f(c)
		out = append(out, forgery{n, c})
	}
	add("height", func(c *ledger.AccountBlock) { c.Height += uint64(1 + p.r.Intn(3)) })
	add("height-down", func(c *ledger.AccountBlock) { c.Height-- })
	add("prev", func(c *ledger.AccountBlock) { c.PrevHash = mutH(c.PrevHash) })
	add("account", func(c *ledger.AccountBlock) {
		c.AccountAddress = p.w.Users[p.r.Intn(len(p.w.Users))].Addr
		if c.AccountAddress == b.AccountAddress {
			c.AccountAddress = p.stolen.Addr
		}
	})
	add("nonce", func(c *ledger.AccountBlock) { c.Nonce = []byte{1, 2, 3, 4, 5, 6, 7, 8} })
	add("data", func(c *ledger.AccountBlock) { c.Data = append(append([]byte{}, c.Data...), byte(p.r.Intn(256))) })
	if len(b.Data) > 0 {
		add("data-bit", func(c *ledger.AccountBlock) {
			c.Data = append([]byte{}, c.Data...)
			c.Data[p.r.Intn(len(c.Data))] ^= 1 << uint(p.r.Intn(8))
		})
	}
	add("loghash", func(c *ledger.AccountBlock) { h := mutH(c.Hash); c.LogHash = &h })
	if b.LogHash != nil {
		add("loghash-gone", func(c *ledger.AccountBlock) { c.LogHash = nil })
	}
	if b.IsSendBlock() {
		add("to", func(c *ledger.AccountBlock) { c.ToAddress = p.stolen.Addr })
		add("amount", func(c *ledger.AccountBlock) { c.Amount = new(big.Int).Add(c.Amount, big.NewInt(1)) })
		add("token", func(c *ledger.AccountBlock) { c.TokenId = types.TokenTypeId{1, 2, 3, 4} })
		add("fee", func(c *ledger.AccountBlock) { c.Fee = big.NewInt(7) })
	} else {
		add("from", func(c *ledger.AccountBlock) { c.FromBlockHash = mutH(c.FromBlockHash) })
	}
	return out
}

func (p *peer) forgeCommon(b *ledger.AccountBlock) []forgery {
	var out []forgery
	// one committed field changed, hash and signature kept
	l := p.fields(b)
	f := l[p.r.Intn(len(l))]
	out = append(out, forgery{"keep-hash/" + f.name, f.b})
	// hash recomputed, signature kept
	f = l[p.r.Intn(len(l))]
	f.b.Hash = f.b.ComputeHash()
	out = append(out, forgery{"keep-sig/" + f.name, f.b})
	// recomputed and signed by a stranger
	f = l[p.r.Intn(len(l))]
	f.b.Hash = f.b.ComputeHash()
	f.b.Signature, f.b.PublicKey, _ = p.stolen.Sign(f.b.Hash.Bytes())
	if f.b.AccountAddress != p.stolen.Addr {
		out = append(out, forgery{"stranger/" + f.name, f.b})
	}
	c := sim.Wire(b)
	c.Signature, c.PublicKey, _ = p.stolen.Sign(c.Hash.Bytes())
	out = append(out, forgery{"stranger-signs", c})
	c = sim.Wire(b)
	c.Signature, _, _ = p.stolen.Sign(c.Hash.Bytes())
	out = append(out, forgery{"wrong-signature", c})
	c = sim.Wire(b)
	c.PublicKey = append([]byte{}, c.PublicKey...)
	if len(c.PublicKey) > 0 {
		c.PublicKey[p.r.Intn(len(c.PublicKey))] ^= 1
		out = append(out, forgery{"public-key-bit", c})
	}
	c = sim.Wire(b)
	if len(c.Signature) > 0 {
		c.Signature = append([]byte{}, c.Signature...)
		c.Signature[p.r.Intn(len(c.Signature))] ^= 1
		out = append(out, forgery{"signature-bit", c})
	}
	c = sim.Wire(b)
	c.Signature = nil
	out = append(out, forgery{"no-signature", c})
	c = sim.Wire(b)
	c.Signature, c.PublicKey = nil, nil
	out = append(out, forgery{"unsigned", c})
	c = sim.Wire(b)
	c.Hash = types.Hash{}
	out = append(out, forgery{"zero-hash", c})
	// a bogus work proof on an otherwise valid block
	c = sim.Wire(b)
	c.Difficulty = big.NewInt(65535)
	if len(c.Nonce) == 0 {
		out = append(out, forgery{"difficulty-without-work", c})
	}
	// a contract's own send, delivered by itself
	for i, s := range b.SendBlockList {
		c := sim.Wire(s)
		out = append(out, forgery{"bare-contract-send", c})
		if i > 2 {
			break
		}
	}
	return out
}

func (p *peer) balance(a types.Address, t types.TokenTypeId) *big.Int {
	v, err := p.n.Chain.GetBalance(a, t)
	if err != nil || v == nil {
		return new(big.Int)
	}
	return v
}

// sealedSet: sealed by the rightful owner but against the rules.
func (p *peer) sealedSet(b *ledger.AccountBlock) ([]forgery, func(string, func(c *ledger.AccountBlock))) {
	k := p.key(b)
	out := new([]forgery)
	add := func(n string, f func(c *ledger.AccountBlock)) {
		if k != nil {
			*out = append(*out, forgery{"sealed/" + n, p.sealed(b, k, f)})
		}
	}
	add("height", func(c *ledger.AccountBlock) { c.Height += uint64(1 + p.r.Intn(3)) })
	add("height-down", func(c *ledger.AccountBlock) { c.Height-- })
	add("prev", func(c *ledger.AccountBlock) { c.PrevHash = mutH(c.PrevHash) })
	add("prev-zero", func(c *ledger.AccountBlock) {
		if c.PrevHash.IsZero() {
			c.PrevHash = mutH(c.PrevHash)
		} else {
			c.PrevHash = types.Hash{}
		}
	})
	add("nonce", func(c *ledger.AccountBlock) {
		c.Nonce = []byte{0, 0, 0, 0, 0, 0, 0, byte(p.r.Intn(256))}
		c.Difficulty = new(big.Int).Lsh(big.NewInt(1), 60)
	})
	add("nonce-short", func(c *ledger.AccountBlock) { c.Nonce = []byte{1}; c.Difficulty = big.NewInt(1) })
	add("type-unknown", func(c *ledger.AccountBlock) { c.BlockType = byte(8 + p.r.Intn(200)) })
	add("type-genesis", func(c *ledger.AccountBlock) {
		c.BlockType = ledger.BlockTypeGenesisReceive
		if c.Amount == nil {
			c.Amount = big.NewInt(0)
		}
	})
	return *out, func(n string, f func(c *ledger.AccountBlock)) { add(n, f) }
}

func (p *peer) forgeSend(b *ledger.AccountBlock) []forgery {
	k := p.key(b)
	out, _ := p.sealedSet(b)
	add := func(n string, f func(c *ledger.AccountBlock)) {
		if k != nil {
			out = append(out, forgery{"sealed/" + n, p.sealed(b, k, f)})
		}
	}
	bal := p.balance(b.AccountAddress, b.TokenId)
	add("overspend", func(c *ledger.AccountBlock) { c.Amount = new(big.Int).Add(bal, big.NewInt(1)) })
	add("overspend-max", func(c *ledger.AccountBlock) {
		c.Amount = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	})
	add("overspend-huge", func(c *ledger.AccountBlock) { c.Amount = new(big.Int).Lsh(big.NewInt(1), 256) })
	if b.BlockType == ledger.BlockTypeSendCall {
		add("overspend-fee", func(c *ledger.AccountBlock) {
			c.Fee = new(big.Int).Add(p.balance(b.AccountAddress, sim.Vite), big.NewInt(1))
		})
		add("type-reward", func(c *ledger.AccountBlock) { c.BlockType = ledger.BlockTypeSendReward })
		add("type-refund", func(c *ledger.AccountBlock) { c.BlockType = ledger.BlockTypeSendRefund })
	}
	add("unknown-token", func(c *ledger.AccountBlock) {
		c.TokenId = types.CreateTokenTypeId([]byte("nothing"))
		c.Amount = big.NewInt(1)
	})
	add("smuggled-send", func(c *ledger.AccountBlock) {
		s := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: c.AccountAddress, ToAddress: p.stolen.Addr, Amount: sim.Units(1000000), TokenId: sim.Vite, Fee: big.NewInt(0)}
		c.SendBlockList = []*ledger.AccountBlock{s}
	})
	// replay of an older block
	if b.Height > 2 {
		old, err := p.n.Chain.GetAccountBlockByHeight(b.AccountAddress, 2+uint64(p.r.Int63n(int64(b.Height-2))))
		if err == nil && old != nil {
			out = append(out, forgery{"replayed", sim.Wire(old)})
		}
	}
	return out
}

func (p *peer) otherSends(b *ledger.AccountBlock) (received, foreign *types.Hash) {
	s := p.x.d.S
	for h, r := range s.RecvOf {
		if r != nil && p.have[r.Hash] && s.Sends[h] != nil && s.Sends[h].ToAddress == b.AccountAddress && h != b.FromBlockHash {
			hh := h
			received = &hh
			break
		}
	}
	for a, m := range s.Pend {
		if a == b.AccountAddress {
			continue
		}
		for _, hb := range m {
			h := hb.Hash
			if ok, _ := p.n.Chain.GetAccountBlockByHash(h); ok != nil {
				hh := h
				foreign = &hh
			}
			break
		}
	}
	return
}

func (p *peer) forgeReceive(b *ledger.AccountBlock) []forgery {
	k := p.key(b)
	out, _ := p.sealedSet(b)
	add := func(n string, f func(c *ledger.AccountBlock)) {
		if k != nil {
			out = append(out, forgery{"sealed/" + n, p.sealed(b, k, f)})
		}
	}
	add("amount", func(c *ledger.AccountBlock) { c.Amount = big.NewInt(1) })
	add("token", func(c *ledger.AccountBlock) { c.TokenId = sim.Vite })
	add("to", func(c *ledger.AccountBlock) { c.ToAddress = p.stolen.Addr })
	add("fee", func(c *ledger.AccountBlock) { c.Fee = big.NewInt(1) })
	add("data", func(c *ledger.AccountBlock) { c.Data = make([]byte, 33) })
	add("from-nowhere", func(c *ledger.AccountBlock) { c.FromBlockHash = mutH(c.FromBlockHash) })
	add("from-zero", func(c *ledger.AccountBlock) { c.FromBlockHash = types.Hash{} })
	add("type-error", func(c *ledger.AccountBlock) { c.BlockType = ledger.BlockTypeReceiveError })
	add("loghash", func(c *ledger.AccountBlock) { h := mutH(c.Hash); c.LogHash = &h })
	add("smuggled-send", func(c *ledger.AccountBlock) {
		s := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: c.AccountAddress, ToAddress: p.stolen.Addr, Amount: sim.Units(1000000), TokenId: sim.Vite, Fee: big.NewInt(0)}
		c.SendBlockList = []*ledger.AccountBlock{s}
	})
	rcv, foreign := p.otherSends(b)
	if rcv != nil {
		add("received-again", func(c *ledger.AccountBlock) { c.FromBlockHash = *rcv })
	}
	if foreign != nil {
		add("not-addressed", func(c *ledger.AccountBlock) { c.FromBlockHash = *foreign })
	}
	// the stranger receives it on its own account
	out = append(out, forgery{"stolen-receive", p.sealed(b, p.stolen, func(c *ledger.AccountBlock) {
		c.AccountAddress, c.Height, c.PrevHash = p.stolen.Addr, 1, types.Hash{}
	})})
	return out
}

func (p *peer) forgeContract(b *ledger.AccountBlock) []forgery {
	k := p.key(b)
	out, _ := p.sealedSet(b)
	add := func(n string, f func(c *ledger.AccountBlock)) {
		if k != nil {
			out = append(out, forgery{"sealed/" + n, p.sealed(b, k, f)})
		}
	}
	if len(b.Data) == 33 {
		add("result", func(c *ledger.AccountBlock) { c.Data = append([]byte{}, c.Data...); c.Data[32] ^= 1 })
		add("state", func(c *ledger.AccountBlock) { c.Data = append([]byte{}, c.Data...); c.Data[p.r.Intn(32)] ^= 1 })
	}
	add("no-data", func(c *ledger.AccountBlock) {
		if len(c.Data) > 0 {
			c.Data = nil
		} else {
			c.Data = make([]byte, 33)
		}
	})
	add("loghash", func(c *ledger.AccountBlock) { h := mutH(c.Hash); c.LogHash = &h })
	if b.LogHash != nil {
		add("loghash-gone", func(c *ledger.AccountBlock) { c.LogHash = nil })
	}
	add("smuggled-send", func(c *ledger.AccountBlock) {
		s := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: c.AccountAddress, ToAddress: p.stolen.Addr, Amount: big.NewInt(0), TokenId: sim.Vite, Fee: big.NewInt(0)}
		c.SendBlockList = append(c.SendBlockList, s)
	})
	if n := len(b.SendBlockList); n > 0 {
		i := p.r.Intn(n)
		add("send-dropped", func(c *ledger.AccountBlock) {
			c.SendBlockList = append(c.SendBlockList[:i:i], c.SendBlockList[i+1:]...)
		})
		add("send-redirected", func(c *ledger.AccountBlock) { c.SendBlockList[i].ToAddress = p.stolen.Addr })
		add("send-amount", func(c *ledger.AccountBlock) {
			c.SendBlockList[i].Amount = new(big.Int).Add(c.SendBlockList[i].Amount, big.NewInt(1))
		})
		add("send-data", func(c *ledger.AccountBlock) {
			c.SendBlockList[i].Data = append(append([]byte{}, c.SendBlockList[i].Data...), 1)
		})
		add("send-token", func(c *ledger.AccountBlock) { c.SendBlockList[i].TokenId = types.CreateTokenTypeId([]byte("x")) })
		add("send-type", func(c *ledger.AccountBlock) {
			s := c.SendBlockList[i]
			if s.BlockType == ledger.BlockTypeSendReward {
				s.BlockType = ledger.BlockTypeSendCall
			} else {
				s.BlockType = ledger.BlockTypeSendReward
			}
		})
		add("send-fee", func(c *ledger.AccountBlock) { c.SendBlockList[i].Fee = big.NewInt(1) })
		if n > 1 {
			j := (i + 1) % n
			if string(b.SendBlockList[i].Data) != string(b.SendBlockList[j].Data) || b.SendBlockList[i].ToAddress != b.SendBlockList[j].ToAddress || b.SendBlockList[i].Amount.Cmp(b.SendBlockList[j].Amount) != 0 || b.SendBlockList[i].TokenId != b.SendBlockList[j].TokenId || b.SendBlockList[i].BlockType != b.SendBlockList[j].BlockType {
				add("send-order", func(c *ledger.AccountBlock) {
					c.SendBlockList[i], c.SendBlockList[j] = c.SendBlockList[j], c.SendBlockList[i]
				})
			}
		}
		// the embedded send's content changed under an unchanged host hash
		c := sim.Wire(b)
		c.SendBlockList[i].ToAddress = p.stolen.Addr
		out = append(out, forgery{"keep-hash/embedded-to", c})
		c = sim.Wire(b)
		c.SendBlockList[i].Amount = new(big.Int).Add(c.SendBlockList[i].Amount, big.NewInt(1))
		out = append(out, forgery{"keep-hash/embedded-amount", c})
	}
	add("type-error", func(c *ledger.AccountBlock) {
		if c.BlockType == ledger.BlockTypeReceiveError {
			c.BlockType = ledger.BlockTypeReceive
		} else {
			c.BlockType = ledger.BlockTypeReceiveError
		}
	})
	rcv, foreign := p.otherSends(b)
	if rcv != nil {
		add("received-again", func(c *ledger.AccountBlock) { c.FromBlockHash = *rcv })
	}
	if foreign != nil {
		add("not-addressed", func(c *ledger.AccountBlock) { c.FromBlockHash = *foreign })
	}
	// a user, not a producer, signs the contract's block
	u := p.w.Users[p.r.Intn(len(p.w.Users))]
	out = append(out, forgery{"unelected-user", p.sealed(b, u, func(c *ledger.AccountBlock) {})})
	elected := map[types.Address]bool{}
	for _, e := range p.n.ContractProducers() {
		elected[e.Addr] = true
	}
	for _, s := range p.w.SBPs {
		if !elected[s.Addr] {
			out = append(out, forgery{"unelected-producer", p.sealed(b, s, func(c *ledger.AccountBlock) {})})
			break
		}
	}
	// out of turn: a later pending send of the same caller
	var later *types.Hash
	cur := p.x.d.S.Sends[b.FromBlockHash]
	for _, hb := range p.x.d.S.Pend[b.AccountAddress] {
		h := hb.Hash
		s := p.x.d.S.Sends[h]
		if s == nil || cur == nil || s.AccountAddress != cur.AccountAddress || types.IsContractAddr(s.AccountAddress) || s.Height <= cur.Height {
			continue
		}
		if x, _ := p.n.Chain.GetAccountBlockByHash(h); x != nil {
			hh := h
			later = &hh
			break
		}
	}
	if later != nil {
		add("out-of-turn", func(c *ledger.AccountBlock) { c.FromBlockHash = *later })
	}
	return out
}

// scheduled: does the public schedule give the slot at t to a?
func (p *peer) scheduled(a types.Address, t time.Time) bool {
	idx, err := p.n.Cons.VoteTimeToIndex(types.SNAPSHOT_GID, t)
	if err != nil {
		return true
	}
	i := uint64(0)
	if idx > 3 {
		i = idx - 3
	}
	for ; i <= idx+3; i++ {
		ev, _, err := p.n.Cons.ReadByIndex(types.SNAPSHOT_GID, i)
		if err != nil {
			continue
		}
		for _, e := range ev {
			if e.Stime.Equal(t) && e.Address == a {
				return true
			}
		}
	}
	return false
}

func (p *peer) snapshot(sb *ledger.SnapshotBlock) {
	type sf struct {
		name string
		b    *ledger.SnapshotBlock
	}
	var fs []sf
	k := p.w.ByAddr[types.PubkeyToAddress(sb.PublicKey)]
	mut := func(n string, how int, f func(c *ledger.SnapshotBlock)) {
		c := sim.WireSnapshot(sb)
		f(c)
		switch how {
		case 0: // hash kept
		case 1:
			c.Hash = c.ComputeHash()
		case 2:
			c.Hash = c.ComputeHash()
			c.Signature, c.PublicKey, _ = k.Sign(c.Hash.Bytes())
		case 3:
			c.Hash = c.ComputeHash()
			c.Signature, c.PublicKey, _ = p.stolen.Sign(c.Hash.Bytes())
		}
		fs = append(fs, sf{fmt.Sprintf("%s/%d", n, how), c})
	}
	if p.r.Intn(2) == 0 {
		mut("prev", p.r.Intn(4), func(c *ledger.SnapshotBlock) { c.PrevHash = mutH(c.PrevHash) })
		mut("height", p.r.Intn(4), func(c *ledger.SnapshotBlock) { c.Height++ })
		mut("height-down", p.r.Intn(4), func(c *ledger.SnapshotBlock) { c.Height-- })
		mut("time", p.r.Intn(2), func(c *ledger.SnapshotBlock) { t := c.Timestamp.Add(time.Second); c.Timestamp = &t })
		if t := sb.Timestamp.Add(time.Second * time.Duration(p.r.Intn(9)-4)); !p.scheduled(k.Addr, t) {
			mut("off-slot", 2, func(c *ledger.SnapshotBlock) { c.Timestamp = &t })
		}
		head := p.n.Chain.GetLatestSnapshotBlock()
		mut("time-back", 2, func(c *ledger.SnapshotBlock) { t := head.Timestamp.Add(-time.Second); c.Timestamp = &t })
		// a producer uses its slot again
		for n, old := 0, head; n < 2 && old != nil && old.Height > 1; n++ {
			if s := p.w.ByAddr[types.PubkeyToAddress(old.PublicKey)]; s != nil {
				c := sim.WireSnapshot(sb)
				t := *old.Timestamp
				c.Timestamp = &t
				if s.Addr != k.Addr {
					c.Seed, c.SeedHash = 0, nil
				}
				c.Hash = c.ComputeHash()
				c.Signature, c.PublicKey, _ = s.Sign(c.Hash.Bytes())
				fs = append(fs, sf{fmt.Sprintf("slot-again/%d", n), c})
			}
			old, _ = p.n.Chain.GetSnapshotBlockByHash(old.PrevHash)
		}
		mut("seed", p.r.Intn(2), func(c *ledger.SnapshotBlock) { c.Seed++ })
		mut("seedhash", p.r.Intn(2), func(c *ledger.SnapshotBlock) {
			h := mutH(c.Hash)
			c.SeedHash = &h
		})
		mut("stranger", 3, func(c *ledger.SnapshotBlock) {})
		mut("content-extra", p.r.Intn(4), func(c *ledger.SnapshotBlock) {
			if c.SnapshotContent == nil {
				c.SnapshotContent = ledger.SnapshotContent{}
			}
			h := types.Hash{1, 2, 3}
			c.SnapshotContent[p.stolen.Addr] = &ledger.HashHeight{Height: 1, Hash: h}
		})
		for a, e := range sb.SnapshotContent {
			mut("content-hash", p.r.Intn(4), func(c *ledger.SnapshotBlock) {
				c.SnapshotContent[a] = &ledger.HashHeight{Height: e.Height, Hash: mutH(e.Hash)}
			})
			mut("content-height", p.r.Intn(4), func(c *ledger.SnapshotBlock) {
				c.SnapshotContent[a] = &ledger.HashHeight{Height: e.Height + 1, Hash: e.Hash}
			})
			mut("content-dropped", p.r.Intn(2), func(c *ledger.SnapshotBlock) { delete(c.SnapshotContent, a) })
			break
		}
		for _, s := range p.w.SBPs {
			if s.Addr != k.Addr {
				c := sim.WireSnapshot(sb)
				c.Signature, c.PublicKey, _ = s.Sign(c.Hash.Bytes())
				fs = append(fs, sf{"other-producer", c})
				break
			}
		}
		c := sim.WireSnapshot(sb)
		c.Signature = append([]byte{}, c.Signature...)
		c.Signature[p.r.Intn(64)] ^= 1
		fs = append(fs, sf{"signature-bit", c})
		c = sim.WireSnapshot(sb)
		c.Signature, c.PublicKey = nil, nil
		fs = append(fs, sf{"unsigned", c})
	}
	p.r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	if len(fs) > 8 {
		fs = fs[:8]
	}
	c0 := p.cheap()
	for _, f := range fs {
		err := func() (err error) {
			defer func() {
				if e := recover(); e != nil {
					p.x.fail("forgery-panics/snapshot/"+f.name, "verifying a forged snapshot (%s) panics: %v", f.name, e)
				}
			}()
			_, err = p.n.AcceptSnapshot(sim.WireSnapshot(f.b))
			return err
		}()
		if p.x.bad {
			return
		}
		if err == nil {
			p.x.fail("forgery-accepted/snapshot/"+f.name, "the peer accepted a forged snapshot (%s) at height %d", f.name, sb.Height)
			return
		}
		p.x.r.Eval(fmt.Sprintf("forged-snap/%s/%s", f.name, sb.Hash), true)
		p.x.r.Count("forged_snapshots", 1)
		p.x.r.Count("forged.snap."+f.name, 1)
	}
	if c1 := p.cheap(); c0 != c1 {
		p.x.fail("refused-but-changed", "refused forged snapshots changed the ledger: %s -> %s", c0, c1)
		return
	}
	inv, err := p.n.AcceptSnapshot(sim.WireSnapshot(sb))
	if len(inv) > 0 {
		p.x.r.Count("peer_dropped", int64(len(inv)))
	}
	if err != nil {
		p.x.fail("honest-snapshot-refused", "the peer refuses an honest snapshot %d: %v", sb.Height, err)
		return
	}
	p.x.r.Eval("accept-snap/"+sb.Hash.String(), true)
	p.x.r.Count("snapshots_accepted_by_peer", 1)
}
