package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	gonet "net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/vitepb"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/net/vnode"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

const netID = 12

type consStub struct{ consensus.Consensus }

func (consStub) SubscribeProducers(types.Gid, string, func(consensus.ProducersEvent)) {}
func (consStub) UnSubscribe(types.Gid, string)                                        {}

type irrStub struct{ n *sim.Node }

func (i irrStub) GetIrreversibleBlock() *ledger.SnapshotBlock {
	return i.n.Chain.GetGenesisSnapshotBlock()
}

// bed is one running network service on a real ledger.
type bed struct {
	r    *vrep.R
	name string
	n    *sim.Node
	net  net.Net
	port int
	file int
	id   vnode.NodeID
	key  ed25519.PrivateKey
	cfg  *config.Net

	mu   sync.Mutex
	snap map[types.Hash]int
	acc  map[types.Hash]int
}

var ipSeq uint32
var ipMu sync.Mutex

func freshIP() gonet.IP {
	ipMu.Lock()
	defer ipMu.Unlock()
	ipSeq++
	return gonet.IPv4(127, byte(1+ipSeq/62500), byte(ipSeq/250%250), byte(2+ipSeq%250))
}

func freePort() int {
	l, err := gonet.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*gonet.TCPAddr).Port
}

func openBed(r *vrep.R, name string, n *sim.Node, dir string, maxPeers int, static []string) *bed {
	for try := 0; ; try++ {
		b := &bed{r: r, name: name, n: n, snap: map[types.Hash]int{}, acc: map[types.Hash]int{}}
		b.port, b.file = freePort(), freePort()
		b.cfg = &config.Net{Name: "bed", NetID: netID, ListenInterface: "0.0.0.0", Port: b.port, FilePort: b.file, DataDir: filepath.Join(dir, fmt.Sprint("net", b.port)), MaxPeers: maxPeers, MaxInboundRatio: 1, MinPeers: 0, MaxPendingPeers: 20, ForwardStrategy: "cross", AccessControl: "any", StaticNodes: static}
		x, err := net.New(b.cfg, n.Chain, n.Ver, consStub{n.Cons}, irrStub{n})
		if err != nil {
			panic(err)
		}
		b.net, b.key = x, x.PeerKey()
		b.id, _ = vnode.Bytes2NodeID(b.key.PubByte())
		b.net.SubscribeSnapshotBlock(func(blk *ledger.SnapshotBlock, _ types.BlockSource) {
			b.mu.Lock()
			b.snap[blk.Hash]++
			b.mu.Unlock()
		})
		b.net.SubscribeAccountBlock(func(_ types.Address, blk *ledger.AccountBlock, _ types.BlockSource) {
			b.mu.Lock()
			b.acc[blk.Hash]++
			b.mu.Unlock()
		})
		if err := b.net.Start(); err != nil {
			if try < 5 {
				continue
			}
			panic(err)
		}
		return b
	}
}

func (b *bed) listed(id vnode.NodeID) bool {
	for _, p := range b.net.Info().Peers {
		if p.Id == id.String() {
			return true
		}
	}
	return false
}

// until waits for a condition the node reaches by itself.
func until(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
}

type client struct {
	b      *bed
	conn   gonet.Conn
	c      net.Codec
	key    ed25519.PrivateKey
	id     vnode.NodeID
	mu     sync.Mutex
	wmu    sync.Mutex
	byID   map[uint32][]net.Msg
	bcast  []net.Msg
	closed bool
	next   uint32
	why    int
}

func newKey(g *rand.Rand) (ed25519.PrivateKey, vnode.NodeID) {
	var seed [32]byte
	g.Read(seed[:])
	_, k, err := ed25519.GenerateKeyFromD(seed)
	if err != nil {
		panic(err)
	}
	id, _ := vnode.Bytes2NodeID(k.PubByte())
	return k, id
}

func (b *bed) dial() gonet.Conn {
	d := gonet.Dialer{LocalAddr: &gonet.TCPAddr{IP: freshIP()}, Timeout: 20 * time.Second}
	c, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", b.port))
	if err != nil {
		panic(fmt.Sprint("dial: ", err))
	}
	return c
}

func token(priv ed25519.PrivateKey, to vnode.NodeID, ts int64) []byte {
	sec, err := crypto.X25519ComputeSecret(priv.ToX25519Sk(), ed25519.PublicKey(to.Bytes()).ToX25519Pk())
	if err != nil {
		panic(err)
	}
	var t [8]byte
	binary.BigEndian.PutUint64(t[:], uint64(ts))
	h := crypto.Hash256(t[:])
	for i := range h {
		h[i] ^= sec[i]
	}
	return h
}

func (b *bed) hello(k ed25519.PrivateKey, id vnode.NodeID, height uint64) *net.HandshakeMsg {
	m := &net.HandshakeMsg{NetID: netID, Name: "c", ID: id, Timestamp: time.Now().Unix(), Height: height, Head: b.n.Chain.GetGenesisSnapshotBlock().Hash, Genesis: b.n.Chain.GetGenesisSnapshotBlock().Hash, FileAddress: []byte{1, 2}, PublicAddress: []byte{1, 3}}
	m.Token = token(k, b.id, m.Timestamp)
	return m
}

// shake sends a handshake message and tells whether the node accepted it.
func (b *bed) shake(c net.Codec, m *net.HandshakeMsg, mid uint32) (bool, int) {
	data, err := m.Serialize()
	if err != nil {
		panic(err)
	}
	if c.WriteMsg(net.Msg{Code: net.CodeHandshake, Id: mid, Payload: data}) != nil {
		return false, -1
	}
	return b.reply(c, m, mid)
}

func (b *bed) reply(c net.Codec, m *net.HandshakeMsg, mid uint32) (bool, int) {
	got, err := c.ReadMsg()
	if err != nil {
		return false, -2
	}
	if got.Code != net.CodeHandshake {
		why := -3
		if len(got.Payload) > 0 {
			why = int(got.Payload[0])
		}
		return false, why
	}
	their := new(net.HandshakeMsg)
	if err := their.Deserialize(got.Payload); err != nil || their.ID != b.id || their.NetID != netID || their.Genesis != b.n.Chain.GetGenesisSnapshotBlock().Hash || got.Id != mid {
		b.r.Violate(b.name, "handshake reply", "the node answered a handshake (id %d) with id %d, %v, %+v", mid, got.Id, err, their)
	}
	return true, 0
}

func (b *bed) join(g *rand.Rand) *client {
	k, id := newKey(g)
	return b.joinAs(g, k, id)
}

func (b *bed) joinAs(g *rand.Rand, k ed25519.PrivateKey, id vnode.NodeID) *client {
	conn := b.dial()
	c := &client{b: b, conn: conn, c: codec(conn, pick(g, 0, 100, 1<<30)), key: k, id: id, byID: map[uint32][]net.Msg{}, next: uint32(g.Intn(1 << 20))}
	m := b.hello(k, id, uint64(1+g.Intn(2)))
	switch g.Intn(4) {
	case 0:
		mk, _ := newKey(g)
		m.Key = mk.PubByte()
		m.Token = ed25519.Sign(mk, m.Token)
	case 1: // any address bytes are tolerated
		m.FileAddress, m.PublicAddress = bs(g, g.Intn(40)), bs(g, g.Intn(40))
	}
	ok, why := b.shake(c.c, m, uint32(g.Intn(70000)))
	if !ok {
		c.why = why
		conn.Close()
		c.closed = true
		return c
	}
	b.r.Count("peers admitted", 1)
	go c.loop()
	go c.beat()
	return c
}

// beat keeps an idle connection alive as an honest node does.
func (c *client) beat() {
	for !c.dead() {
		time.Sleep(4 * time.Second)
		c.state(nil, true)
	}
}

func (c *client) state(ps []*vitepb.State_Peer, patch bool) {
	p, _ := proto.Marshal(&vitepb.State{Head: c.b.n.Chain.GetGenesisSnapshotBlock().Hash.Bytes(), Height: 1, Patch: patch, Timestamp: time.Now().Unix(), Peers: ps})
	c.write(net.Msg{Code: net.CodeHeartBeat, Payload: p})
}

func (c *client) write(m net.Msg) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	return c.c.WriteMsg(m)
}

// neighbours reports joins and leaves of the client's own peers and compares what the node believes.
func (c *client) neighbours(g *rand.Rand) {
	model := map[string]bool{}
	var pool []vnode.NodeID
	for i := 0; i < 6; i++ {
		_, id := newKey(g)
		pool = append(pool, id)
	}
	for k := 0; k < 8; k++ {
		var ps []*vitepb.State_Peer
		patch := k > 0 && g.Intn(4) > 0
		if !patch {
			model = map[string]bool{}
		}
		for _, j := range g.Perm(len(pool))[:g.Intn(4)] {
			id := pool[j]
			st := vitepb.State_Connected
			if g.Intn(2) == 0 && patch {
				st = vitepb.State_Disconnected
				delete(model, id.String())
			} else {
				model[id.String()] = true
			}
			ps = append(ps, &vitepb.State_Peer{ID: id.Bytes(), Status: st})
		}
		if g.Intn(4) == 0 {
			ps = append(ps, &vitepb.State_Peer{ID: bs(g, 31), Status: vitepb.State_PeerStatus(g.Intn(2))})
		}
		c.state(ps, patch)
		var got []string
		if !until(patience, func() bool {
			for _, p := range c.b.net.Info().Peers {
				if p.Id == c.id.String() {
					got = p.Peers
					if len(got) != len(model) {
						return false
					}
					for _, x := range got {
						if !model[x] {
							return false
						}
					}
					return true
				}
			}
			return c.dead()
		}) {
			c.b.r.Violate(c.b.name, "neighbours of a peer", "the peer reported %v, the node believes %v", model, got)
			return
		}
		c.b.r.Eval(fmt.Sprintf("neighbours/%v/%d", patch, len(model)), true)
		c.b.r.Count("neighbour reports", 1)
	}
}

func (c *client) loop() {
	for {
		c.c.SetReadTimeout(10 * time.Minute)
		m, err := c.c.ReadMsg()
		c.mu.Lock()
		if err != nil || m.Code == net.CodeDisconnect {
			c.closed = true
			c.mu.Unlock()
			return
		}
		switch m.Code {
		case net.CodeNewSnapshotBlock, net.CodeNewAccountBlock:
			c.bcast = append(c.bcast, m)
		default:
			c.byID[m.Id] = append(c.byID[m.Id], m)
		}
		c.mu.Unlock()
	}
}

func (c *client) dead() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

func (c *client) replies(id uint32) []net.Msg {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]net.Msg{}, c.byID[id]...)
}

func (c *client) send(code byte, id uint32, m wire) error {
	p, err := m.Serialize()
	if err != nil {
		panic(err)
	}
	return c.write(net.Msg{Code: code, Id: id, Payload: p})
}

const patience = 60 * time.Second

// ask sends one well-formed request and judges the answer.
func (c *client) ask(g *rand.Rand, kind int) {
	b, ch := c.b, c.b.n.Chain
	head := ch.GetLatestSnapshotBlock().Height
	c.next++
	id := c.next
	count := uint64(pick(g, 1, 1, 2, 7, 99, 100, 101, 150, 200, 201, 300, 1000))
	if g.Intn(25) == 0 {
		count = []uint64{1 << 20, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}[g.Intn(6)]
	}
	fwd := g.Intn(2) == 0
	rng := func(h, last uint64) (from, to uint64) {
		if fwd {
			from, to = h, h+count-1
			if to < from {
				to = 1<<64 - 1
			}
		} else {
			to = h
			if count < h {
				from = h - count + 1
			}
		}
		if from == 0 {
			from = 1
		}
		if to > last {
			to = last
		}
		return
	}
	var want []string
	missing := false
	var code byte
	var err error
	parse := func(ms []net.Msg) (got []string, exc int) {
		for _, m := range ms {
			switch m.Code {
			case net.CodeSnapshotBlocks:
				x := new(net.SnapshotBlocks)
				if x.Deserialize(m.Payload) != nil {
					got = append(got, "undecodable")
				}
				for _, y := range x.Blocks {
					got = append(got, snorm(y))
				}
			case net.CodeAccountBlocks:
				x := new(net.AccountBlocks)
				if x.Deserialize(m.Payload) != nil {
					got = append(got, "undecodable")
				}
				for _, y := range x.Blocks {
					got = append(got, anorm(y))
				}
			case net.CodeHashList:
				x := new(net.HashHeightPointList)
				if x.Deserialize(m.Payload) != nil {
					got = append(got, "undecodable")
				}
				for _, p := range x.Points {
					got = append(got, fmt.Sprint(p.Hash, "/", p.Height))
				}
			case net.CodeException:
				exc++
			default:
				got = append(got, fmt.Sprint("code ", m.Code))
			}
		}
		return
	}
	what := ""
	switch kind {
	case 0:
		h := uint64(1 + g.Intn(int(head)+3))
		q := &net.GetSnapshotBlocks{From: ledger.HashHeight{Height: h}, Count: count, Forward: fwd}
		blk, _ := ch.GetSnapshotBlockByHeight(h)
		switch g.Intn(4) {
		case 0:
			if blk != nil {
				q.From.Hash = blk.Hash
				q.From.Height = u64(g)
			}
		case 1:
			if g.Intn(4) == 0 {
				q.From.Hash = hash(g)
				blk = nil
			}
		}
		if blk == nil {
			missing = true
		} else {
			from, to := rng(h, head)
			for x := from; x <= to; x++ {
				y, _ := ch.GetSnapshotBlockByHeight(x)
				want = append(want, snorm(y))
			}
		}
		what, code = fmt.Sprintf("snapshot blocks from %d (%x) count %d forward %v", h, q.From.Hash[:4], count, fwd), net.CodeGetSnapshotBlocks
		err = c.send(code, id, q)
	case 1:
		var addr types.Address
		if g.Intn(10) > 0 {
			l := b.n.W.Users
			addr = l[g.Intn(len(l))].Addr
			if g.Intn(3) == 0 {
				addr = types.BuiltinContracts[g.Intn(len(types.BuiltinContracts))]
			}
		} else {
			g.Read(addr[:20])
		}
		last, _ := ch.GetLatestAccountBlock(addr)
		lh := uint64(0)
		if last != nil {
			lh = last.Height
		}
		h := uint64(1 + g.Intn(int(lh)+2))
		blk, _ := ch.GetAccountBlockByHeight(addr, h)
		q := &net.GetAccountBlocks{Address: addr, From: ledger.HashHeight{Height: h}, Count: count, Forward: fwd}
		if blk != nil && g.Intn(2) == 0 {
			q.From.Hash = blk.Hash
			q.From.Height = u64(g)
			if g.Intn(2) == 0 {
				g.Read(q.Address[:20]) // the hash says it all
			}
		} else if g.Intn(10) == 0 {
			q.From.Hash = hash(g)
			blk = nil
		}
		if blk == nil {
			missing = true
		} else {
			from, to := rng(h, lh)
			for x := from; x <= to; x++ {
				y, _ := ch.GetAccountBlockByHeight(addr, x)
				want = append(want, anorm(y))
			}
		}
		what, code = fmt.Sprintf("account blocks of %s from %d (%x) count %d forward %v", addr, h, q.From.Hash[:4], count, fwd), net.CodeGetAccountBlocks
		err = c.send(code, id, q)
	default:
		q := &net.GetHashHeightList{Step: uint64(pick(g, 1, 2, 10, 100, 100, 37, 1000)), To: uint64(1 + g.Intn(int(head)+20))}
		var start uint64
		for k := 1 + g.Intn(4); k > 0; k-- {
			h := uint64(1 + g.Intn(int(head)))
			blk, _ := ch.GetSnapshotBlockByHeight(h)
			p := &ledger.HashHeight{Height: h, Hash: blk.Hash}
			switch g.Intn(4) {
			case 0:
				p.Hash = hash(g)
			case 1:
				p.Height = head + 1 + u64(g)>>2
			default:
				if start == 0 {
					start = h
				}
			}
			q.From = append(q.From, p)
		}
		if start > 0 {
			for h := start + 1; h <= q.To && h <= head; {
				y, _ := ch.GetSnapshotBlockByHeight(h)
				want = append(want, fmt.Sprint(y.Hash, "/", y.Height))
				if h == q.To {
					break
				}
				if h = (h/q.Step + 1) * q.Step; h > q.To {
					h = q.To
				}
			}
		}
		missing = len(want) == 0
		what, code = fmt.Sprintf("hash list %d from %d points (common %d) step %d to %d, head %d", id, len(q.From), start, q.Step, q.To, head), net.CodeGetHashList
		err = c.send(code, id, q)
	}
	if err != nil {
		b.r.Violate(b.name, "request connection lost", "the connection of an honest peer failed while asking %s: %v", what, err)
		return
	}
	done := until(patience, func() bool {
		got, exc := parse(c.replies(id))
		return len(got) >= len(want) && (exc > 0 || !missing)
	})
	got, exc := parse(c.replies(id))
	switch {
	case !done:
		b.r.Violate(b.name, fmt.Sprintf("request %d not answered", kind), "%s: %d of %d blocks and %d exceptions came in %v (connection closed: %v)", what, len(got), len(want), exc, patience, c.dead())
	case len(got) != len(want):
		b.r.Violate(b.name, fmt.Sprintf("request %d answered too much", kind), "%s: %d blocks came, expected %d", what, len(got), len(want))
	default:
		cnt := map[string]int{}
		for _, s := range want {
			cnt[s]++
		}
		for _, s := range got {
			cnt[s]--
			if cnt[s] < 0 {
				b.r.Violate(b.name, fmt.Sprintf("request %d wrong block", kind), "%s: got %.200s which was not asked or came twice", what, s)
				break
			}
		}
	}
	b.r.Eval(fmt.Sprintf("ask/%d/%v/%d/%v", kind, fwd, bits(uint64(len(want))), missing), true)
	b.r.Count("requests answered", 1)
	b.r.Count("blocks served", int64(len(want)))
}

// forged tries one handshake the node must refuse.
func (b *bed) forged(g *rand.Rand, other vnode.NodeID, peer *client) {
	k, id := newKey(g)
	m := b.hello(k, id, 1)
	raw := []byte(nil)
	code := net.CodeHandshake
	kind := g.Intn(14)
	switch kind {
	case 0:
		m.NetID = int64(pick(g, 0, 1, netID+1, -netID))
	case 1:
		m.Genesis = hash(g)
	case 2:
		m.Token = bs(g, 32)
	case 3:
		m.ID = other // not ours to claim
	case 4:
		m.Timestamp++ // token of another time
	case 5:
		mk, _ := newKey(g)
		m.Key = mk.PubByte() // key without signature
	case 6:
		mk, _ := newKey(g)
		m.Key = mk.PubByte()
		m.Token = ed25519.Sign(k, m.Token) // signed by another key
	case 7:
		m.Key = bs(g, pick(g, 1, 31, 33, 64)) // malformed key
	case 8:
		raw = bs(g, g.Intn(200))
	case 9:
		code = byte(pick(g, 0, 3, 4, 27, 31, 60, 127, 255))
	case 10:
		m.Token = m.Token[:g.Intn(32)]
	case 11:
		if peer != nil { // already connected
			m = b.hello(peer.key, peer.id, 1)
		} else {
			m.Token = nil
		}
	case 12: // ourselves
		m = b.hello(b.key, b.id, 1)
	default:
		raw, _ = m.Serialize()
		raw = raw[:g.Intn(len(raw)-40)] // the token comes after
	}
	conn := b.dial()
	defer conn.Close()
	c := codec(conn, 100)
	c.SetReadTimeout(30 * time.Second)
	if raw == nil {
		raw, _ = m.Serialize()
	}
	if c.WriteMsg(net.Msg{Code: code, Id: uint32(g.Intn(9)), Payload: raw}) != nil {
		return
	}
	got, err := c.ReadMsg()
	if err == nil && got.Code == net.CodeHandshake {
		b.r.Violate(b.name, fmt.Sprintf("forged handshake %d admitted", kind), "the node completed a handshake it had to refuse (kind %d): %+v", kind, m)
	}
	if kind == 3 && b.listed(other) {
		b.r.Violate(b.name, "impersonation", "a connection without the key of %s is listed as that peer", other)
	}
	b.r.Eval(fmt.Sprintf("forged/%d", kind), true)
	b.r.Count("forged handshakes refused", 1)
}

// mischief sends hostile bytes after a proper handshake.
func (b *bed) mischief(g *rand.Rand) {
	c := b.join(g)
	if c.dead() {
		return
	}
	defer c.conn.Close()
	for k := 1 + g.Intn(6); k > 0; k-- {
		switch g.Intn(5) {
		case 0:
			c.conn.Write(hostileStream(g))
		case 1: // damaged message of a known kind
			kind := g.Intn(kinds)
			m, _ := genMessage(g, kind)
			p, _ := m.Serialize()
			for d := g.Intn(3); d > 0 && len(p) > 0; d-- {
				p[g.Intn(len(p))] = byte(g.Intn(256))
			}
			if g.Intn(5) == 0 {
				p = p[:g.Intn(len(p)+1)]
			}
			codes := []byte{net.CodeGetSnapshotBlocks, net.CodeSnapshotBlocks, net.CodeGetAccountBlocks, net.CodeAccountBlocks, net.CodeNewSnapshotBlock, net.CodeNewAccountBlock, net.CodeHashList, net.CodeGetHashList, net.CodeHandshake, net.CodeException}
			code := codes[kind]
			if g.Intn(8) == 0 {
				code = codes[g.Intn(len(codes))]
			}
			c.write(net.Msg{Code: code, Id: ids[g.Intn(len(ids))], Payload: p})
		case 2:
			st := &vitepb.State{Head: bs(g, pick(g, 32, 32, 31, 0)), Height: u64(g) >> 40, Patch: g.Intn(2) == 0, Timestamp: g.Int63()}
			for k := g.Intn(5) * g.Intn(40); k > 0; k-- {
				st.Peers = append(st.Peers, &vitepb.State_Peer{ID: bs(g, pick(g, 32, 32, 31, 0)), Status: vitepb.State_PeerStatus(g.Intn(3))})
			}
			p, _ := proto.Marshal(st)
			c.write(net.Msg{Code: net.CodeHeartBeat, Payload: p})
		case 3: // well-formed, with extreme numbers
			head := b.n.Chain.GetLatestSnapshotBlock()
			switch g.Intn(3) {
			case 0:
				c.send(net.CodeGetHashList, 5, &net.GetHashHeightList{From: []*ledger.HashHeight{{Hash: b.n.Chain.GetGenesisSnapshotBlock().Hash, Height: 1}}, Step: u64(g), To: u64(g)})
			case 1:
				c.send(net.CodeGetSnapshotBlocks, 5, &net.GetSnapshotBlocks{From: ledger.HashHeight{Height: uint64(g.Intn(int(head.Height) + 2))}, Count: u64(g), Forward: g.Intn(2) == 0})
			default:
				c.send(net.CodeGetAccountBlocks, 5, &net.GetAccountBlocks{Address: b.n.W.Users[0].Addr, From: ledger.HashHeight{Height: u64(g) >> uint(g.Intn(60))}, Count: u64(g), Forward: g.Intn(2) == 0})
			}
		default:
			x := bs(g, g.Intn(100))
			c.write(net.Msg{Code: byte(g.Intn(256)), Id: g.Uint32(), Payload: x})
		}
		if g.Intn(2) == 0 {
			time.Sleep(time.Duration(g.Intn(30)) * time.Millisecond)
		}
	}
	b.r.Eval("mischief", true)
	b.r.Count("hostile sessions", 1)
}

// fileSession talks to the chunk server: proper chunks for peers, nothing for others.
func (b *bed) fileSession(g *rand.Rand, peer *client, kind int) {
	conn, err := gonet.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", b.file))
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	c := codec(conn, 100)
	c.SetReadTimeout(30 * time.Second)
	if kind == 0 {
		conn.Write(hostileStream(g))
		b.r.Count("hostile chunk sessions", 1)
		return
	}
	k, id := peer.key, peer.id
	hs := &vitepb.SyncConnHandshake{Timestamp: time.Now().Unix()}
	bad := kind == 1
	if bad && g.Intn(2) == 0 {
		k, id = newKey(g) // not a peer
	}
	hs.ID = id.Bytes()
	hs.Token = token(k, b.id, hs.Timestamp)
	if bad && id == peer.id {
		switch g.Intn(4) {
		case 0:
			hs.Token = bs(g, 32)
		case 1:
			hs.Key = bs(g, pick(g, 1, 31, 32, 33))
		case 2:
			hs.Timestamp++
		default:
			hs.ID = hs.ID[:g.Intn(32)]
		}
	}
	p, _ := proto.Marshal(hs)
	c.WriteMsg(net.Msg{Code: net.CodeSyncHandshake, Payload: p})
	m, err := c.ReadMsg()
	ok := err == nil && m.Code == net.CodeSyncHandshakeOK
	if ok == bad {
		if bad || !peer.dead() {
			b.r.Violate(b.name, fmt.Sprintf("chunk handshake bad=%v", bad), "chunk server answered handshake (to be refused: %v) with %v %d %x", bad, err, m.Code, m.Payload)
		}
		return
	}
	b.r.Eval(fmt.Sprintf("chunk handshake/%v", bad), true)
	if !ok {
		b.r.Count("forged chunk handshakes refused", 1)
		return
	}
	ch := b.n.Chain
	head := ch.GetLatestSnapshotBlock().Height
	for i := 0; i < 6; i++ {
		from := uint64(2 + g.Intn(int(head)-1))
		to := from + uint64(g.Intn(120))
		if to > head {
			to = head
		}
		prev, _ := ch.GetSnapshotBlockByHeight(from - 1)
		last, _ := ch.GetSnapshotBlockByHeight(to)
		q := &vitepb.ChunkRequest{From: from, To: to, PrevHash: prev.Hash.Bytes(), EndHash: last.Hash.Bytes()}
		wrong := g.Intn(3) == 0
		if wrong {
			switch g.Intn(6) {
			case 0:
				q.PrevHash = bs(g, 32)
			case 1:
				q.EndHash = bs(g, 32)
			case 2:
				q.To = head + 1 + u64(g)>>1
			case 3:
				q.From = uint64(g.Intn(2))
			case 4:
				q.From, q.To = to+1, from
			default:
				q.From, q.To = u64(g)|1<<40, 1<<64-1
			}
		}
		p, _ := proto.Marshal(q)
		if err := c.WriteMsg(net.Msg{Code: net.CodeSyncRequest, Id: uint32(i + 1), Payload: p}); err != nil {
			b.r.Violate(b.name, "chunk connection lost", "writing chunk request %d failed: %v", i, err)
			return
		}
		m, err := c.ReadMsg()
		if err != nil {
			b.r.Violate(b.name, "chunk connection lost", "chunk request %+v got %v", q, err)
			return
		}
		if m.Id != uint32(i+1) {
			b.r.Violate(b.name, "chunk answer id", "chunk request %d answered with id %d", i+1, m.Id)
			return
		}
		if wrong {
			if m.Code != net.CodeException {
				b.r.Violate(b.name, "wrong chunk served", "chunk request %+v that does not match the chain got code %d", q, m.Code)
				return
			}
			b.r.Eval("chunk refused", true)
			continue
		}
		resp := &vitepb.ChunkResponse{}
		if m.Code != net.CodeSyncReady || proto.Unmarshal(m.Payload, resp) != nil || resp.From != from || resp.To != to || !bytes.Equal(resp.PrevHash, q.PrevHash) || !bytes.Equal(resp.EndHash, q.EndHash) {
			b.r.Violate(b.name, "chunk not served", "chunk %d-%d answered with code %d %+v", from, to, m.Code, resp)
			return
		}
		rd, err := ch.GetLedgerReaderByHeight(from, to)
		if err != nil {
			panic(err)
		}
		var want bytes.Buffer
		want.ReadFrom(rd)
		rd.Close()
		got := make([]byte, resp.Size)
		conn.SetReadDeadline(time.Now().Add(patience))
		for n := 0; n < len(got); {
			x, err := conn.Read(got[n:])
			n += x
			if err != nil && n < len(got) {
				b.r.Violate(b.name, "chunk cut short", "chunk %d-%d ended after %d of %d bytes: %v", from, to, n, len(got), err)
				return
			}
		}
		if !bytes.Equal(got, want.Bytes()) {
			b.r.Violate(b.name, "chunk content", "chunk %d-%d: %d bytes differ from the ledger's %d bytes", from, to, len(got), want.Len())
			return
		}
		b.r.Eval(fmt.Sprintf("chunk/%d", bits(to-from)), true)
		b.r.Count("chunks served", 1)
	}
}

// twins opens two connections with one identity at the same time.
func (b *bed) twins(g *rand.Rand) {
	k, id := newKey(g)
	l := make([]*client, 2+g.Intn(2))
	// both arrive complete before the node looks at either
	ms := make([]*net.HandshakeMsg, len(l))
	for i := range l {
		conn := b.dial()
		l[i] = &client{b: b, conn: conn, c: codec(conn, 100), key: k, id: id, byID: map[uint32][]net.Msg{}}
		ms[i] = b.hello(k, id, 1)
	}
	for i, c := range l {
		data, _ := ms[i].Serialize()
		c.c.WriteMsg(net.Msg{Code: net.CodeHandshake, Id: 1, Payload: data})
	}
	for i, c := range l {
		if ok, why := b.reply(c.c, ms[i], 1); !ok {
			c.closed, c.why = true, why
		} else {
			go c.loop()
		}
	}
	alive := func() (n int) {
		for _, c := range l {
			if !c.dead() {
				n++
			}
		}
		return
	}
	if !until(patience, func() bool { return alive() <= 1 }) {
		b.r.Violate(b.name, "two connections of one identity", "%d connections of %s stay open", alive(), id)
		return
	}
	time.Sleep(50 * time.Millisecond)
	if alive() == 1 && !until(patience, func() bool { return b.listed(id) || alive() == 0 }) {
		b.r.Violate(b.name, "connected peer not listed", "the connection of %s is open but the node does not count it as a peer after a second connection with its identity was refused", id)
	}
	both := 0
	for _, c := range l {
		if c.why == 0 {
			both++
		}
		c.conn.Close()
	}
	b.r.Eval(fmt.Sprintf("twins/%d of %d", both, len(l)), true)
	b.r.Count("twin connections", 1)
	if both > 1 {
		b.r.Count("twins that both passed the handshake", 1)
	}
	if !until(patience, func() bool { return !b.listed(id) }) {
		b.r.Violate(b.name, "closed peer still listed", "%s closed all its connections and is still listed", id)
	}
}

func (b *bed) counts(h types.Hash, snap bool) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	if snap {
		return b.snap[h]
	}
	return b.acc[h]
}

// broadcast spreads fresh blocks, genuine and damaged, over several connections.
func (b *bed) broadcast(g *rand.Rand, src *sim.Node, n int) {
	type item struct {
		h    types.Hash
		snap bool
	}
	var good []item
	bad := map[types.Hash]string{}
	peers := []*client{b.join(g), b.join(g), b.join(g)}
	defer func() {
		for _, c := range peers {
			c.conn.Close()
		}
	}()
	hurt := func(code byte, m wire) { // from somebody who will be thrown out
		c := b.join(g)
		if c.dead() {
			return
		}
		c.send(code, 0, m)
		c.send(code, 0, m)
		until(5*time.Second, c.dead)
		c.conn.Close()
	}
	for i := 0; i < n; i++ {
		if g.Intn(3) > 0 {
			u := src.W.Users
			from, to := u[g.Intn(len(u))], u[g.Intn(len(u))]
			blk, err := src.Send(from, to.Addr, ledger.ViteTokenId, big.NewInt(int64(1+g.Intn(1000))), bs(g, g.Intn(3)*60))
			if err != nil {
				continue
			}
			if g.Intn(2) == 0 {
				x := blk.Copy()
				switch g.Intn(4) {
				case 0:
					x.Signature = bs(g, 64)
				case 1:
					x.PublicKey = bs(g, pick(g, 32, 31, 0))
				case 2:
					x.Amount = new(big.Int).Add(x.Amount, big.NewInt(1)) // hash no longer fits
				default:
					x.Amount = new(big.Int).Add(x.Amount, big.NewInt(1))
					x.Hash = x.ComputeHash() // signature no longer fits
					bad[x.Hash] = "account block with a signature of another block"
				}
				hurt(net.CodeNewAccountBlock, &net.NewAccountBlock{Block: x, TTL: int32(g.Intn(3))})
			}
			for k := 1 + g.Intn(6); k > 0; k-- {
				peers[g.Intn(3)].send(net.CodeNewAccountBlock, 0, &net.NewAccountBlock{Block: blk, TTL: int32(g.Intn(3))})
			}
			good = append(good, item{blk.Hash, false})
		} else {
			blk, _, err := src.Snapshot(0, -1)
			if err != nil {
				panic(err)
			}
			if g.Intn(2) == 0 {
				x := *blk
				switch g.Intn(3) {
				case 0:
					x.Signature = bs(g, 64)
				case 1:
					x.Seed++
				default:
					t := time.Now().Add(2 * time.Hour)
					x.Timestamp = &t
					x.Hash = x.ComputeHash()
					k := src.W.SBPs[0]
					x.PublicKey, x.Signature = k.Priv.PubByte(), ed25519.Sign(k.Priv, x.Hash.Bytes())
					bad[x.Hash] = "snapshot block from the future"
				}
				hurt(net.CodeNewSnapshotBlock, &net.NewSnapshotBlock{Block: &x, TTL: int32(g.Intn(3))})
			}
			for k := 1 + g.Intn(6); k > 0; k-- {
				peers[g.Intn(3)].send(net.CodeNewSnapshotBlock, 0, &net.NewSnapshotBlock{Block: blk, TTL: int32(g.Intn(3))})
			}
			good = append(good, item{blk.Hash, true})
		}
	}
	for _, it := range good {
		it := it
		if !until(patience, func() bool { return b.counts(it.h, it.snap) > 0 }) {
			dead := 0
			for _, c := range peers {
				if c.dead() {
					dead++
				}
			}
			b.r.Violate(b.name, "broadcast block lost", "valid block %s (snapshot: %v) sent by honest peers was not handed on in %v (peers gone: %d)", it.h, it.snap, patience, dead)
			return
		}
		b.r.Eval(fmt.Sprintf("broadcast/%v", it.snap), true)
		b.r.Count("broadcast blocks delivered", 1)
	}
	time.Sleep(300 * time.Millisecond)
	for _, it := range good {
		if c := b.counts(it.h, it.snap); c != 1 {
			b.r.Violate(b.name, "broadcast block delivered twice", "block %s (snapshot: %v) was handed on %d times", it.h, it.snap, c)
			return
		}
	}
	for h, why := range bad {
		if b.counts(h, true)+b.counts(h, false) > 0 {
			b.r.Violate(b.name, "invalid block handed on", "%s was handed on as valid", why)
			return
		}
		b.r.Count("invalid broadcasts refused", 1)
	}
}

// imposter is a static node that answers under another identity than the dialled one.
func (b *bed) imposter(g *rand.Rand, l gonet.Listener, k ed25519.PrivateKey, id vnode.NodeID, lie bool) (claimed vnode.NodeID, ok bool) {
	l.(*gonet.TCPListener).SetDeadline(time.Now().Add(patience))
	conn, err := l.Accept()
	if err != nil {
		return id, false
	}
	c := codec(conn, 100)
	m, err := c.ReadMsg()
	if err != nil || m.Code != net.CodeHandshake {
		return id, false
	}
	claimed = id
	if lie {
		_, claimed = newKey(g)
	}
	h := b.hello(k, claimed, 1)
	data, _ := h.Serialize()
	c.WriteMsg(net.Msg{Code: net.CodeHandshake, Id: m.Id, Payload: data})
	go func() {
		defer conn.Close()
		for {
			c.SetReadTimeout(time.Minute)
			if m, err := c.ReadMsg(); err != nil || m.Code == net.CodeDisconnect {
				return
			}
		}
	}()
	return claimed, true
}

// dialled lets the node dial a listener that answers honestly or with a handshake it has to refuse.
func (b *bed) dialled(g *rand.Rand, other vnode.NodeID) {
	x, ok := b.net.(interface {
		ConnectNode(node *vnode.Node) error
	})
	if !ok {
		return
	}
	l, err := gonet.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	defer l.Close()
	k, id := newKey(g)
	node, err := vnode.ParseNode(fmt.Sprintf("%s@%s/%d", id, l.Addr(), netID))
	if err != nil {
		panic(err)
	}
	go x.ConnectNode(node)
	l.(*gonet.TCPListener).SetDeadline(time.Now().Add(patience))
	conn, err := l.Accept()
	if err != nil {
		return
	}
	defer conn.Close()
	c := codec(conn, 100)
	c.SetReadTimeout(patience)
	first, err := c.ReadMsg()
	their := new(net.HandshakeMsg)
	if err != nil || first.Code != net.CodeHandshake || their.Deserialize(first.Payload) != nil || their.ID != b.id || their.NetID != netID || their.Genesis != b.n.Chain.GetGenesisSnapshotBlock().Hash ||
		!bytes.Equal(their.Token, token(k, b.id, their.Timestamp)) {
		b.r.Violate(b.name, "handshake of the dialling node", "dialling %s the node said %v, code %d, %+v", id, err, first.Code, their)
		return
	}
	m := b.hello(k, id, 1)
	kind := g.Intn(11)
	want := false
	code := net.CodeHandshake
	switch kind {
	case 0:
		m.NetID = int64(pick(g, 0, 1, netID+1, -netID))
	case 1:
		m.Genesis = hash(g)
	case 2:
		m.Token = bs(g, 32)
	case 3:
		m.ID = other
	case 4:
		m.Timestamp++
	case 5:
		mk, _ := newKey(g)
		m.Key = mk.PubByte()
	case 6:
		mk, _ := newKey(g)
		m.Key = mk.PubByte()
		m.Token = ed25519.Sign(k, m.Token)
	case 7:
		code = byte(pick(g, 0, 3, 4, 27, 31, 60, 127, 255))
	case 8: // the node's own words
		m.ID, m.Timestamp, m.Token = b.id, their.Timestamp, their.Token
	case 9:
		mk, _ := newKey(g)
		m.Key = mk.PubByte()
		m.Token = ed25519.Sign(mk, m.Token)
		want = true
	default:
		want = true
	}
	data, _ := m.Serialize()
	if c.WriteMsg(net.Msg{Code: code, Id: first.Id, Payload: data}) != nil {
		return
	}
	var mu sync.Mutex
	gone := false
	go func() {
		for {
			c.SetReadTimeout(2 * patience)
			if q, err := c.ReadMsg(); err != nil || q.Code == net.CodeDisconnect {
				mu.Lock()
				gone = true
				mu.Unlock()
				return
			}
		}
	}()
	in := false
	until(patience, func() bool {
		in = in || b.listed(id) || m.ID != b.id && m.ID != id && b.listed(m.ID)
		mu.Lock()
		defer mu.Unlock()
		return in || gone
	})
	if in && !want {
		b.r.Violate(b.name, fmt.Sprintf("forged answer %d admitted", kind), "the node dialled %s and took an answer it had to refuse (kind %d): %+v", id, kind, m)
	}
	if !in && want {
		b.r.Violate(b.name, "dialled peer not listed", "the node dialled %s and did not take its honest answer (kind %d): %+v", id, kind, m)
	}
	b.r.Eval(fmt.Sprintf("dialled/%d", kind), true)
	b.r.Count("answers to the dialling node", 1)
}

func ledgerBed(r *vrep.R, g *rand.Rand, name, dir string) (*sim.Node, *sim.Node) {
	w := sim.NewWorld(sim.WorldOpt{Label: name, Users: 6})
	d, err := sim.NewDriver(w, dir, g, config.Chain{})
	if err != nil {
		panic(err)
	}
	d.WarmUp()
	for i := 0; i < 150; i++ {
		d.Step()
	}
	for d.A.Chain.GetLatestSnapshotBlock().Height < 230 {
		d.DoSnapshot(0, -1)
	}
	u := w.Users[0] // one long account chain
	for i := 0; i < 230; i++ {
		if _, err := d.A.Send(u, w.Users[1].Addr, ledger.ViteTokenId, big.NewInt(1), nil); err != nil {
			d.DoSnapshot(0, -1)
		}
		if i%20 == 0 {
			d.DoSnapshot(0, -1)
		}
	}
	d.DoSnapshot(0, -1)
	d.A.Flush()
	side := filepath.Join(dir, "side")
	if err := sim.CopyDir(d.A.Dir, side); err != nil {
		panic(err)
	}
	src, err := w.Open(side)
	if err != nil {
		panic(err)
	}
	return d.A, src
}

func c31node(prop string) {
	r := vrep.Open(prop, rule31)
	seeds := r.Scale(1, 6)
	for s := 0; s < seeds; s++ {
		name := fmt.Sprintf("n%d", s)
		if !r.Want(name) || r.NumViolations() > 8 || (s > 0 && r.OverBudget()) {
			continue
		}
		g := r.Rand(name)
		dir, err := os.MkdirTemp("", "vsim-net")
		if err != nil {
			panic(err)
		}
		func() {
			defer os.RemoveAll(dir)
			n, src := ledgerBed(r, g, name, dir)
			r.Max("ledger height", int64(n.Chain.GetLatestSnapshotBlock().Height))
			if prop == "C31" {
				hostileNode(r, g, name, n, dir)
			} else {
				servingNode(r, g, name, n, src, dir)
			}
		}()
	}
	r.Close()
}

// hostileNode: crowds of hostile peers while honest ones keep being served.
func hostileNode(r *vrep.R, g *rand.Rand, name string, n *sim.Node, dir string) {
	b := openBed(r, name, n, dir, 5000, nil)
	honest := b.join(g)
	if honest.dead() {
		r.Violate(name, "honest peer refused", "an honest handshake was refused with %d", honest.why)
		return
	}
	_, other := newKey(g)
	vrep.Parallel(r.Scale(2500, 20000), 8, func(i int) {
		gg := r.Rand(fmt.Sprint(name, "x", i))
		if r.NumViolations() > 8 || r.OverBudget() {
			return
		}
		switch i % 4 {
		case 0:
			b.forged(gg, other, nil)
		case 1:
			b.fileSession(gg, honest, gg.Intn(2))
		default:
			b.mischief(gg)
		}
	})
	for i := 0; i < 40; i++ {
		honest.ask(g, g.Intn(3))
	}
	if p := b.join(g); p.dead() {
		r.Violate(name, "honest peer refused", "after hostile sessions an honest handshake was refused with %d", p.why)
	}
}

func servingNode(r *vrep.R, g *rand.Rand, name string, n, src *sim.Node, dir string) {
	// two static nodes: an honest one and one that lies about its identity
	l1, _ := gonet.Listen("tcp", "127.0.0.1:0")
	l2, _ := gonet.Listen("tcp", "127.0.0.1:0")
	k1, id1 := newKey(g)
	k2, id2 := newKey(g)
	b := openBed(r, name, n, dir, 5000, []string{
		fmt.Sprintf("%s@%s/%d", id1, l1.Addr(), netID), fmt.Sprintf("%s@%s/%d", id2, l2.Addr(), netID)})
	var wg sync.WaitGroup
	wg.Add(2)
	dg := r.Rand(name + "dial")
	go func() {
		defer wg.Done()
		if _, ok := b.imposter(dg, l1, k1, id1, false); ok {
			if !until(patience, func() bool { return b.listed(id1) }) {
				r.Violate(name, "dialled peer not listed", "an honest static node was not accepted")
			}
			r.Count("dialled honest node", 1)
			r.Eval("dialled honest", true)
		}
	}()
	dg2 := r.Rand(name + "dial2")
	go func() {
		defer wg.Done()
		if claimed, ok := b.imposter(dg2, l2, k2, id2, true); ok {
			until(2*time.Second, func() bool { return b.listed(claimed) })
			if b.listed(claimed) {
				r.Violate(name, "dialled imposter accepted", "the node dialled %s and accepted the answer under the identity %s, whose key the other side does not have", id2, claimed)
			}
			r.Count("dialled imposter refused", 1)
			r.Eval("dialled imposter", true)
		}
	}()
	stop := b.net.SubscribeSnapshotBlock(func(*ledger.SnapshotBlock, types.BlockSource) {
		r.Violate(name, "called after unsubscribing", "a callback was called after it was unsubscribed")
	})
	b.net.UnsubscribeSnapshotBlock(stop)
	peers := make([]*client, 4)
	for i := range peers {
		if peers[i] = b.join(g); peers[i].dead() {
			r.Violate(name, "honest peer refused", "an honest handshake was refused with %d", peers[i].why)
			return
		}
	}
	_, other := newKey(g)
	vrep.Parallel(4, 4, func(i int) {
		gg := r.Rand(fmt.Sprint(name, "p", i))
		for k := r.Scale(300, 1500); k > 0 && r.NumViolations() <= 8 && !r.OverBudget(); k-- {
			peers[i].ask(gg, gg.Intn(3))
			if k%12 == 0 {
				b.forged(gg, other, peers[i])
				b.dialled(gg, other)
			}
			if k%20 == 0 {
				b.twins(gg)
			}
			if k%40 == 0 {
				peers[i].neighbours(gg)
			}
			if k%15 == 0 {
				b.fileSession(gg, peers[i], 1+gg.Intn(3))
			}
		}
	})
	b.broadcast(g, src, r.Scale(40, 200))
	for i, p := range peers {
		if !b.listed(p.id) {
			r.Violate(name, "honest peer dropped", "peer %d behaved but is no longer listed (connection closed: %v)", i, p.dead())
		}
		p.conn.Close()
	}
	for _, p := range peers {
		p := p
		if !until(patience, func() bool { return !b.listed(p.id) }) {
			r.Violate(name, "closed peer still listed", "a peer that closed its connection is still listed")
		}
	}
	// limits
	lim := 3 + g.Intn(4)
	b2 := openBed(r, name, n, dir, lim, nil)
	in := 0
	for i := 0; i < lim+3; i++ {
		p := b2.join(g)
		if !p.dead() {
			in++
			until(patience, func() bool { return b2.listed(p.id) })
		} else if in < lim {
			r.Violate(name, "peer refused below the limit", "with %d of %d peers a further one was refused with %d", in, lim, p.why)
		}
	}
	if in > lim {
		r.Violate(name, "peer limit exceeded", "%d peers admitted, the limit is %d", in, lim)
	}
	r.Eval(fmt.Sprintf("limit/%d", lim), true)
	wg.Wait()
}
