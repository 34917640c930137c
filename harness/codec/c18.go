package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/log15"
)

var forks = []*upgrade.UpgradePoint{
	{Name: "SeedFork", Height: 100, Version: 1}, {Name: "DexFork", Height: 200, Version: 2}, {Name: "DexFeeFork", Height: 250, Version: 3},
	{Name: "StemFork", Height: 300, Version: 4}, {Name: "LeafFork", Height: 400, Version: 5}, {Name: "EarthFork", Height: 500, Version: 6},
	{Name: "DexMiningFork", Height: 501, Version: 7},
}

func initForks() {
	log15.Root().SetHandler(log15.DiscardHandler())
	upgrade.CleanupUpgradeBox()
	m := map[string]*upgrade.UpgradePoint{}
	for _, p := range forks {
		c := *p
		m[p.Name] = &c
	}
	upgrade.InitUpgradeBox(upgrade.NewCustomUpgradeBox(m))
}

func (c *ctx) hash() (h types.Hash) { copy(h[:], c.bytes(32)); return }
func (c *ctx) addr() (a types.Address) {
	copy(a[:], c.bytes(20))
	a[20] = byte(c.rnd.Intn(2))
	return
}

func (c *ctx) amount() *big.Int {
	switch c.rnd.Intn(5) {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(int64(c.rnd.Intn(300)))
	case 2:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1+int64(c.rnd.Intn(3))))
	}
	return new(big.Int).SetBytes(c.bytes(c.rnd.Intn(33)))
}

func (c *ctx) height() uint64 {
	switch c.rnd.Intn(6) {
	case 0:
		return 1
	case 1:
		return uint64(c.rnd.Intn(4))
	case 2:
		return ^uint64(0) - uint64(c.rnd.Intn(2))
	case 3:
		return c.rnd.Uint64()
	}
	return uint64(95 + c.rnd.Intn(420))
}

func (c *ctx) block(t byte, depth int) *ledger.AccountBlock {
	b := &ledger.AccountBlock{BlockType: t, PrevHash: c.hash(), Height: c.height(), AccountAddress: c.addr(), Hash: c.hash()}
	if b.Height <= 1 {
		b.PrevHash = types.Hash{}
	}
	if ledger.IsSendBlock(t) {
		b.ToAddress = c.addr()
		b.Amount = c.amount()
		copy(b.TokenId[:], c.bytes(10))
	} else {
		b.FromBlockHash = c.hash()
		if t == ledger.BlockTypeGenesisReceive {
			b.Amount = c.amount()
			copy(b.TokenId[:], c.bytes(10))
		}
	}
	if c.rnd.Intn(3) > 0 {
		b.Data = c.bytes(c.rnd.Intn(150))
	}
	b.Fee = c.amount()
	if c.rnd.Intn(6) == 0 {
		b.Fee = nil
	}
	if c.rnd.Intn(2) == 0 {
		h := c.hash()
		b.LogHash = &h
	}
	if c.rnd.Intn(2) == 0 {
		b.Nonce = c.bytes(8)
		b.Difficulty = c.amount()
	}
	b.Quota, b.QuotaUsed = uint64(c.rnd.Intn(1000000)), c.rnd.Uint64()
	if c.rnd.Intn(4) > 0 {
		b.PublicKey = c.bytes(32)
		b.Signature = c.bytes(64)
	}
	if !ledger.IsSendBlock(t) && depth > 0 {
		n := c.rnd.Intn(4)
		if c.rnd.Intn(40) == 0 {
			n = 5 + c.rnd.Intn(60)
		}
		for ; n > 0; n-- {
			b.SendBlockList = append(b.SendBlockList, c.block([]byte{1, 2, 3, 6}[c.rnd.Intn(4)], 0))
		}
	}
	return b
}

func pad32(n *big.Int) []byte {
	o := make([]byte, 32)
	if n != nil {
		n.FillBytes(o)
	}
	return o
}

func u64(n uint64) []byte { o := make([]byte, 8); binary.BigEndian.PutUint64(o, n); return o }

// abSource is the byte string an account block's hash is defined over.
func abSource(b *ledger.AccountBlock) []byte {
	s := cat([]byte{b.BlockType}, b.PrevHash[:], u64(b.Height), b.AccountAddress[:])
	switch b.BlockType {
	case 1, 2, 3, 6:
		s = cat(s, b.ToAddress[:], pad32(b.Amount), b.TokenId[:])
	default:
		s = cat(s, b.FromBlockHash[:])
	}
	if len(b.Data) > 0 {
		s = cat(s, b2(32, b.Data))
	}
	s = cat(s, pad32(b.Fee))
	if b.LogHash != nil {
		s = cat(s, b.LogHash[:])
	}
	s = cat(s, make([]byte, 8-len(b.Nonce)), b.Nonce)
	for _, x := range b.SendBlockList {
		s = cat(s, x.Hash[:])
	}
	return s
}

func zb(b []byte) string { return hex.EncodeToString(b) }

func num(n *big.Int) string {
	if n == nil {
		return "0"
	}
	return n.String()
}

// abText writes every carried field of a block.
func abText(b *ledger.AccountBlock) string {
	s := fmt.Sprintf("type %d hash %s prev %s height %d addr %x pub %x data %x quota %d used %d fee %s diff %s nonce %x sig %x",
		b.BlockType, b.Hash, b.PrevHash, b.Height, b.AccountAddress[:], []byte(b.PublicKey), b.Data, b.Quota, b.QuotaUsed, num(b.Fee), num(b.Difficulty), b.Nonce, b.Signature)
	if b.LogHash != nil {
		s += " log " + b.LogHash.String()
	}
	s += fmt.Sprintf(" to %x from %x amount %s token %x", b.ToAddress[:], b.FromBlockHash[:], num(b.Amount), b.TokenId[:])
	for _, x := range b.SendBlockList {
		s += " [" + abText(x) + "]"
	}
	return s
}

func (c *ctx) flipHash(h *types.Hash) { h[c.rnd.Intn(32)] ^= 1 << uint(c.rnd.Intn(8)) }

func (c *ctx) flipNum(n *big.Int) *big.Int {
	o := new(big.Int)
	if n != nil {
		o.Set(n)
	}
	i := c.rnd.Intn(256)
	return o.SetBit(o, i, o.Bit(i)^1)
}

// variants are copies of the block that differ in one protected field.
func (c *ctx) variants(b *ledger.AccountBlock) map[string]*ledger.AccountBlock {
	out := map[string]*ledger.AccountBlock{}
	mk := func(name string, f func(x *ledger.AccountBlock)) {
		x := b.Copy()
		if len(b.Data) == 0 {
			x.Data = nil
		}
		f(x)
		out[name] = x
	}
	send := ledger.IsSendBlock(b.BlockType)
	mk("type", func(x *ledger.AccountBlock) {
		set := []byte{4, 5, 7}
		if send {
			set = []byte{1, 2, 3, 6}
		}
		for x.BlockType == b.BlockType {
			x.BlockType = set[c.rnd.Intn(len(set))]
		}
		if x.Amount == nil {
			x.Amount = big.NewInt(0)
		}
	})
	mk("prevHash", func(x *ledger.AccountBlock) { c.flipHash(&x.PrevHash) })
	mk("height", func(x *ledger.AccountBlock) { x.Height ^= 1 << uint(c.rnd.Intn(64)) })
	mk("account", func(x *ledger.AccountBlock) { x.AccountAddress[c.rnd.Intn(21)] ^= 1 << uint(c.rnd.Intn(8)) })
	if send {
		mk("to", func(x *ledger.AccountBlock) { x.ToAddress[c.rnd.Intn(21)] ^= 1 << uint(c.rnd.Intn(8)) })
		mk("amount", func(x *ledger.AccountBlock) { x.Amount = c.flipNum(x.Amount) })
		mk("amount1", func(x *ledger.AccountBlock) { x.Amount = x.Amount.Xor(x.Amount, big.NewInt(1)) })
		mk("token", func(x *ledger.AccountBlock) { x.TokenId[c.rnd.Intn(10)] ^= 1 << uint(c.rnd.Intn(8)) })
	} else {
		mk("from", func(x *ledger.AccountBlock) { c.flipHash(&x.FromBlockHash) })
	}
	if len(b.Data) > 0 {
		mk("data", func(x *ledger.AccountBlock) { x.Data[c.rnd.Intn(len(x.Data))] ^= 1 << uint(c.rnd.Intn(8)) })
		mk("data-cut", func(x *ledger.AccountBlock) { x.Data = x.Data[:len(x.Data)-1] })
		mk("data-none", func(x *ledger.AccountBlock) { x.Data = nil })
	}
	mk("data-more", func(x *ledger.AccountBlock) { x.Data = append(x.Data, 0) })
	mk("fee", func(x *ledger.AccountBlock) { x.Fee = c.flipNum(x.Fee) })
	if b.LogHash != nil {
		mk("log", func(x *ledger.AccountBlock) { c.flipHash(x.LogHash) })
		mk("log-none", func(x *ledger.AccountBlock) { x.LogHash = nil })
	} else {
		mk("log-some", func(x *ledger.AccountBlock) { h := c.hash(); x.LogHash = &h })
	}
	mk("nonce", func(x *ledger.AccountBlock) {
		if len(x.Nonce) == 0 {
			x.Nonce = make([]byte, 8)
		}
		x.Nonce[c.rnd.Intn(8)] ^= 1 << uint(c.rnd.Intn(8))
	})
	if n := len(b.SendBlockList); n > 0 {
		mk("sends", func(x *ledger.AccountBlock) { c.flipHash(&x.SendBlockList[c.rnd.Intn(n)].Hash) })
		mk("sends-less", func(x *ledger.AccountBlock) { x.SendBlockList = x.SendBlockList[:n-1] })
		if n > 1 {
			mk("sends-order", func(x *ledger.AccountBlock) {
				x.SendBlockList[0], x.SendBlockList[n-1] = x.SendBlockList[n-1], x.SendBlockList[0]
			})
		}
	}
	if !send {
		mk("sends-more", func(x *ledger.AccountBlock) { x.SendBlockList = append(x.SendBlockList, c.block(2, 0)) })
	}
	return out
}

func runC18(c *ctx) {
	switch c.i % 4 {
	case 0, 1:
		c.accountBlock()
	case 2:
		c.snapshotBlock()
	case 3:
		c.smallThings()
	}
}

func (c *ctx) accountBlock() {
	t := byte(1 + c.rnd.Intn(7))
	b := c.block(t, 1)
	before := abText(b)
	h := b.ComputeHash()
	if want := b2(32, abSource(b)); !bytes.Equal(h[:], want) {
		c.fail("ab-hash", "hash of [%s] is %s, the definition gives %x", before, h, want)
	}
	if ledger.IsSendBlock(t) {
		host := c.block(4, 0)
		idx := uint8(c.rnd.Intn(256))
		sh := b.ComputeSendHash(host, idx)
		if want := b2(32, cat(abSource(b), host.PrevHash[:], u64(host.Height), []byte{idx})); !bytes.Equal(sh[:], want) {
			c.fail("ab-sendhash", "hash of the send [%s] as number %d of a receive is %s, the definition gives %x", before, idx, sh, want)
		}
	}
	for f, x := range c.variants(b) {
		if x.ComputeHash() == h {
			c.fail("ab-uncommitted-"+f, "the hash of [%s] does not change when %s changes", before, f)
		}
		c.r.Count("variants", 1)
	}
	if abText(b) != before {
		c.fail("ab-mutated", "hashing or copying changed the block: [%s] became [%s]", before, abText(b))
	}
	if cp := b.Copy(); abText(cp) != before {
		c.fail("ab-copy", "a copy of [%s] is [%s]", before, abText(cp))
	}
	buf, err := b.Serialize()
	if err != nil {
		c.fail("ab-serialize", "%v", err)
		return
	}
	var x ledger.AccountBlock
	if err := x.Deserialize(buf); err != nil {
		c.fail("ab-roundtrip", "a serialized block cannot be read: %v: [%s]", err, before)
	} else if abText(&x) != before {
		c.fail("ab-roundtrip", "[%s] reads back as [%s]", before, abText(&x))
	} else if x.ComputeHash() != h {
		c.fail("ab-roundtrip-hash", "the hash of [%s] changes by serialization", before)
	}
	if x.Producer() != types.PubkeyToAddress(b.PublicKey) {
		c.fail("ab-producer", "producer of [%s] is %s", before, x.Producer())
	}
	var y ledger.AccountBlock
	if err := y.DeProto(b.Proto()); err != nil || abText(&y) != before {
		c.fail("ab-proto", "[%s] reads back from its message as [%s] (%v)", before, abText(&y), err)
	}
	c.r.Eval(string(buf), true)
	for k := 0; k < 12; k++ {
		c.hostileAB(c.mutate(buf))
	}
	c.hostileAB(c.bytes(c.rnd.Intn(80)))
	// a message with fields of a wrong size
	p := b.Proto()
	fs := []*[]byte{&p.Hash, &p.PrevHash, &p.AccountAddress, &p.PublicKey, &p.ToAddress, &p.TokenId, &p.FromBlockHash, &p.LogHash, &p.Nonce, &p.Signature, &p.Amount, &p.Fee}
	*fs[c.rnd.Intn(len(fs))] = c.bytes(c.rnd.Intn(45))
	var z ledger.AccountBlock
	c.safe("ab-deproto-panic", fmt.Sprintf("reading the message %v", p), func() {
		if z.DeProto(p) == nil {
			z.ComputeHash()
		}
	})
}

func (c *ctx) hostileAB(buf []byte) {
	var x ledger.AccountBlock
	var err error
	if !c.safe("ab-deserialize-panic", fmt.Sprintf("deserializing %x", buf), func() { err = x.Deserialize(buf) }) {
		return
	}
	c.r.Eval(string(buf), true)
	c.r.Count("hostile", 1)
	if err != nil {
		c.r.Count("hostile_refused", 1)
		return
	}
	if len(x.Nonce) > 8 || (x.Amount != nil && x.Amount.BitLen() > 256) || x.Fee.BitLen() > 256 {
		return
	}
	// an accepted block must be usable
	c.safe("ab-accepted-unusable", fmt.Sprintf("using the block accepted from %x", buf), func() {
		h := x.ComputeHash()
		x.Producer()
		x.VerifySignature()
		b, err := x.Serialize()
		if err != nil {
			c.fail("ab-reserialize", "a block accepted from %x cannot be serialized: %v", buf, err)
			return
		}
		var y ledger.AccountBlock
		if err := y.Deserialize(b); err != nil || y.ComputeHash() != h || abText(&y) != abText(&x) {
			c.fail("ab-reread", "a block accepted from %x is [%s], read again [%s] (%v)", buf, abText(&x), abText(&y), err)
		}
	})
}

func (c *ctx) snap() *ledger.SnapshotBlock {
	s := &ledger.SnapshotBlock{Hash: c.hash(), PrevHash: c.hash(), Height: c.height(), Seed: c.rnd.Uint64(), Version: c.rnd.Uint32()}
	if c.rnd.Intn(4) == 0 {
		s.Seed, s.Version = 0, 0
	}
	t := time.Unix(c.rnd.Int63n(4e9), c.rnd.Int63n(1e9))
	if c.rnd.Intn(3) > 0 {
		t = time.Unix(t.Unix(), 0)
	}
	s.Timestamp = &t
	if c.rnd.Intn(2) == 0 {
		h := c.hash()
		s.SeedHash = &h
	}
	if c.rnd.Intn(4) > 0 {
		s.PublicKey, s.Signature = c.bytes(32), c.bytes(64)
	}
	if n := c.rnd.Intn(6); n > 0 {
		s.SnapshotContent = ledger.SnapshotContent{}
		for ; n > 0; n-- {
			a := c.addr()
			if c.rnd.Intn(3) == 0 { // close to another one
				for o := range s.SnapshotContent {
					a = o
					a[c.rnd.Intn(20)] ^= 1 << uint(c.rnd.Intn(8))
					break
				}
			}
			s.SnapshotContent[a] = &ledger.HashHeight{Height: c.height(), Hash: c.hash()}
		}
	}
	return s
}

func contentLines(s *ledger.SnapshotBlock) []string {
	var l []string
	for a, h := range s.SnapshotContent {
		l = append(l, string(cat(a[:], h.Hash[:], u64(h.Height))))
	}
	sort.Strings(l)
	return l
}

func sbSource(s *ledger.SnapshotBlock) []byte {
	o := cat(s.PrevHash[:], u64(s.Height), u64(uint64(s.Timestamp.Unix())), u64(s.Seed))
	if s.SeedHash != nil {
		o = cat(o, s.SeedHash[:])
	} else {
		o = cat(o, make([]byte, 32))
	}
	for _, l := range contentLines(s) {
		o = cat(o, []byte(l))
	}
	name := ""
	for _, f := range forks {
		if f.Height <= s.Height {
			name = f.Name
		}
	}
	o = cat(o, []byte(name))
	if s.Height >= 400 {
		v := make([]byte, 4)
		binary.BigEndian.PutUint32(v, s.Version)
		o = cat(o, v)
	}
	return o
}

func sbText(s *ledger.SnapshotBlock) string {
	t := fmt.Sprintf("hash %s prev %s height %d pub %x sig %x time %d seed %d version %d", s.Hash, s.PrevHash, s.Height, []byte(s.PublicKey), s.Signature, s.Timestamp.UnixNano(), s.Seed, s.Version)
	if s.SeedHash != nil {
		t += " seedhash " + s.SeedHash.String()
	}
	for _, l := range contentLines(s) {
		t += " " + zb([]byte(l))
	}
	return t
}

func copySB(s *ledger.SnapshotBlock) *ledger.SnapshotBlock {
	o := *s
	t := *s.Timestamp
	o.Timestamp = &t
	if s.SeedHash != nil {
		h := *s.SeedHash
		o.SeedHash = &h
	}
	o.SnapshotContent = ledger.SnapshotContent{}
	for a, h := range s.SnapshotContent {
		x := *h
		o.SnapshotContent[a] = &x
	}
	return &o
}

func (c *ctx) snapshotBlock() {
	s := c.snap()
	before := sbText(s)
	h := s.ComputeHash()
	if want := b2(32, sbSource(s)); !bytes.Equal(h[:], want) {
		c.fail("sb-hash", "hash of [%s] is %s, the definition gives %x", before, h, want)
	}
	mk := func(name string, f func(x *ledger.SnapshotBlock)) {
		x := copySB(s)
		f(x)
		if x.ComputeHash() == h {
			c.fail("sb-uncommitted-"+name, "the hash of [%s] does not change when %s changes", before, name)
		}
		c.r.Count("variants", 1)
	}
	mk("prevHash", func(x *ledger.SnapshotBlock) { c.flipHash(&x.PrevHash) })
	mk("height", func(x *ledger.SnapshotBlock) { x.Height ^= 1 << uint(c.rnd.Intn(64)) })
	mk("time", func(x *ledger.SnapshotBlock) {
		t := time.Unix(x.Timestamp.Unix()^(1<<uint(c.rnd.Intn(31))), 0)
		x.Timestamp = &t
	})
	mk("seed", func(x *ledger.SnapshotBlock) { x.Seed ^= 1 << uint(c.rnd.Intn(64)) })
	mk("seedHash", func(x *ledger.SnapshotBlock) {
		if x.SeedHash == nil {
			x.SeedHash = &types.Hash{}
		}
		c.flipHash(x.SeedHash)
	})
	if s.Height >= 400 {
		mk("version", func(x *ledger.SnapshotBlock) { x.Version ^= 1 << uint(c.rnd.Intn(32)) })
	}
	mk("content-more", func(x *ledger.SnapshotBlock) {
		x.SnapshotContent[c.addr()] = &ledger.HashHeight{Height: 5, Hash: c.hash()}
	})
	for a := range s.SnapshotContent {
		a := a
		mk("content-less", func(x *ledger.SnapshotBlock) { delete(x.SnapshotContent, a) })
		mk("content-hash", func(x *ledger.SnapshotBlock) { c.flipHash(&x.SnapshotContent[a].Hash) })
		mk("content-height", func(x *ledger.SnapshotBlock) { x.SnapshotContent[a].Height ^= 1 << uint(c.rnd.Intn(64)) })
		mk("content-address", func(x *ledger.SnapshotBlock) {
			v := x.SnapshotContent[a]
			delete(x.SnapshotContent, a)
			o := a
			o[c.rnd.Intn(21)] ^= 1 << uint(c.rnd.Intn(8))
			x.SnapshotContent[o] = v
		})
	}
	if sh, want := ledger.ComputeSeedHash(s.Seed, s.PrevHash, s.Timestamp), b2(32, cat(u64(s.Seed), s.PrevHash[:], u64(uint64(s.Timestamp.Unix())))); !bytes.Equal(sh[:], want) {
		c.fail("sb-seedhash", "seed hash of [%s] is %s, the definition gives %x", before, sh, want)
	}
	if sbText(s) != before {
		c.fail("sb-mutated", "hashing changed [%s] to [%s]", before, sbText(s))
	}
	buf, err := s.Serialize()
	if err != nil {
		c.fail("sb-serialize", "%v", err)
		return
	}
	buf2, _ := copySB(s).Serialize()
	if !bytes.Equal(buf, buf2) {
		c.fail("sb-serialize-unstable", "[%s] serializes to different bytes", before)
	}
	var x ledger.SnapshotBlock
	if err := x.Deserialize(buf); err != nil {
		c.fail("sb-roundtrip", "a serialized block cannot be read: %v: [%s]", err, before)
	} else if sbText(&x) != before || x.ComputeHash() != h {
		c.fail("sb-roundtrip", "[%s] reads back as [%s]", before, sbText(&x))
	}
	c.r.Eval(string(buf), true)
	for k := 0; k < 12; k++ {
		m := c.mutate(buf)
		var y ledger.SnapshotBlock
		var err error
		if !c.safe("sb-deserialize-panic", fmt.Sprintf("deserializing %x", m), func() { err = y.Deserialize(m) }) {
			return
		}
		c.r.Eval(string(m), true)
		c.r.Count("hostile", 1)
		if err != nil {
			c.r.Count("hostile_refused", 1)
			continue
		}
		c.safe("sb-accepted-unusable", fmt.Sprintf("using the snapshot block accepted from %x", m), func() {
			h := y.ComputeHash()
			y.Producer()
			y.VerifySignature()
			b, err := y.Serialize()
			var z ledger.SnapshotBlock
			if err != nil || z.Deserialize(b) != nil || z.ComputeHash() != h || sbText(&z) != sbText(&y) {
				c.fail("sb-reread", "a snapshot block accepted from %x is [%s], read again [%s] (%v)", m, sbText(&y), sbText(&z), err)
			}
		})
	}
}

func logText(l ledger.VmLogList) string {
	s := ""
	for _, v := range l {
		s += fmt.Sprintf("%v %x;", v.Topics, v.Data)
	}
	return s
}

func (c *ctx) smallThings() {
	// logs
	var l ledger.VmLogList
	for n := c.rnd.Intn(4); n > 0; n-- {
		v := &ledger.VmLog{Data: c.bytes(c.rnd.Intn(50))}
		for k := c.rnd.Intn(5); k > 0; k-- {
			v.Topics = append(v.Topics, c.hash())
		}
		l = append(l, v)
	}
	a, p := c.addr(), c.hash()
	sh := c.height()
	want := ""
	if len(l) > 0 {
		var src []byte
		for _, v := range l {
			for _, t := range v.Topics {
				src = cat(src, t[:])
			}
			src = cat(src, v.Data)
		}
		if sh >= 100 {
			src = cat(src, a[:], p[:])
		}
		want = zb(b2(32, src))
	}
	got := ""
	if h := l.Hash(sh, a, p); h != nil {
		got = h.String()
	}
	if got != want {
		c.fail("log-hash", "hash of the logs %s at %d is %s, the definition gives %s", logText(l), sh, got, want)
	}
	buf, err := l.Serialize()
	var l2 ledger.VmLogList
	if err != nil || l2.Deserialize(buf) != nil || logText(l2) != logText(l) {
		c.fail("log-roundtrip", "logs %s read back as %s", logText(l), logText(l2))
	}
	c.r.Eval("log"+string(buf), len(l) > 0)
	for k := 0; k < 6; k++ {
		m := c.mutate(buf)
		c.safe("log-deserialize-panic", fmt.Sprintf("reading logs from %x", m), func() {
			var x ledger.VmLogList
			x.Deserialize(m)
		})
		c.r.Eval(string(m), true)
	}
	// contract metadata
	m := ledger.ContractMeta{SendConfirmedTimes: byte(c.rnd.Intn(256)), SeedConfirmedTimes: byte(c.rnd.Intn(256)), QuotaRatio: byte(c.rnd.Intn(256)), CreateBlockHash: c.hash()}
	copy(m.Gid[:], c.bytes(10))
	mb, err := m.Serialize()
	var m2 ledger.ContractMeta
	if err != nil || m2.Deserialize(mb) != nil || m2 != m {
		c.fail("meta-roundtrip", "contract metadata %+v reads back as %+v", m, m2)
	}
	var m3 ledger.ContractMeta
	old := m
	old.SeedConfirmedTimes = m.SendConfirmedTimes
	if m3.Deserialize(mb[:ledger.LengthBeforeSeedFork]) != nil || m3 != old {
		c.fail("meta-roundtrip-old", "old contract metadata of %+v reads back as %+v", m, m3)
	}
	c.r.Eval("meta"+string(mb), true)
	// points
	hh := ledger.HashHeight{Height: c.height(), Hash: c.hash()}
	hb, err := hh.Serialize()
	var h2 ledger.HashHeight
	if err != nil || h2.Deserialize(hb) != nil || h2 != hh {
		c.fail("point-roundtrip", "%+v reads back as %+v", hh, h2)
	}
	c.safe("point-panic", "reading a point", func() {
		var x ledger.HashHeight
		x.Deserialize(c.mutate(hb))
	})
	c.r.Eval("hh"+string(hb), true)
}
