// Command discv decides that peer discovery takes only well-signed packets, survives hostile
// ones, and answers lookups from a sane table (C30). The real service runs over loopback UDP.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/net/discovery"
	"github.com/vitelabs/go-vite/v2/net/discovery/protos"
	"github.com/vitelabs/go-vite/v2/net/vnode"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

const netID = 7

type ident struct {
	key ed25519.PrivateKey
	id  vnode.NodeID
}

func newIdent(g *rand.Rand) *ident {
	var seed [32]byte
	g.Read(seed[:])
	pub, priv, err := ed25519.GenerateKeyFromD(seed)
	if err != nil {
		panic(err)
	}
	i := &ident{key: priv}
	copy(i.id[:], pub)
	return i
}

func dist(a, b vnode.NodeID) int {
	for i := range a {
		if x := a[i] ^ b[i]; x != 0 {
			n := 0
			for x&0x80 == 0 {
				n++
				x <<= 1
			}
			return 256 - i*8 - n
		}
	}
	return 0
}

func (i *ident) pkt(code byte, m proto.Message) []byte {
	p, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return i.raw(code, p)
}

func (i *ident) raw(code byte, p []byte) []byte {
	out := append([]byte{0, code}, i.id[:]...)
	out = append(out, p...)
	return append(out, ed25519.Sign(i.key, p)...)
}

func payload(b []byte) []byte { return b[34 : len(b)-64] }

func v4(a, b, c, d byte, port int) []byte {
	e := vnode.EndPoint{Host: []byte{a, b, c, d}, Port: port, Typ: vnode.HostIPv4}
	x, _ := e.Serialize()
	return x
}

// client is a UDP socket speaking for some identities.
type client struct {
	conn *net.UDPConn
	port int
	to   *net.UDPAddr
	mu   sync.Mutex
	got  [][]byte
	big  int
	// answer pings with a pong signed by this identity
	as *ident
	// or in this way
	forge func(b []byte) []byte
	// called on every findnode
	onFind func(c *client)
}

func (s *srv) client(as *ident) *client {
	conn, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	conn.SetReadBuffer(1 << 20)
	c := &client{conn: conn, port: conn.LocalAddr().(*net.UDPAddr).Port, to: s.addr, as: as}
	s.cs = append(s.cs, c)
	go func() {
		buf := make([]byte, 65536)
		for {
			n, _, err := conn.ReadFromUDP(buf)
			if err != nil {
				return
			}
			b := append([]byte(nil), buf[:n]...)
			if n > 1200 {
				c.mu.Lock()
				c.big = n
				c.mu.Unlock()
			}
			if n > 98 && b[1] == 0 && c.as != nil && c.forge == nil {
				c.send(c.as.pkt(1, &protos.Pong{From: v4(127, 0, 0, 1, c.port), Net: netID, Echo: crypto.Hash256(payload(b)), Time: time.Now().Unix()}))
			}
			if n > 98 && b[1] == 0 && c.forge != nil {
				c.send(c.forge(b))
			}
			if n > 98 && b[1] == 2 && c.onFind != nil {
				c.onFind(c)
			}
			if n > 2 && (b[1] == 1 || b[1] == 3) {
				c.mu.Lock()
				c.got = append(c.got, b)
				c.mu.Unlock()
			}
		}
	}()
	return c
}

func (c *client) send(b []byte) { c.conn.WriteToUDP(b, c.to) }

func (c *client) take() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := c.got
	c.got = nil
	return out
}

type srv struct {
	r    *vrep.R
	g    *rand.Rand
	name string
	me   *ident
	addr *net.UDPAddr
	d    *discovery.Discovery
	cs   []*client
	n    int
}

func freePort() int {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	defer c.Close()
	return c.LocalAddr().(*net.UDPAddr).Port
}

func start(r *vrep.R, g *rand.Rand, name string) *srv {
	for try := 0; ; try++ {
		s := &srv{r: r, g: g, name: name, me: newIdent(g)}
		port := freePort()
		s.addr = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
		node := &vnode.Node{ID: s.me.id, EndPoint: vnode.EndPoint{Host: []byte{127, 0, 0, 1}, Port: port, Typ: vnode.HostIPv4}, Net: netID}
		s.d = discovery.New(s.me.key, node, nil, nil, s.addr.String(), nil)
		if err := s.d.Start(); err != nil {
			if try > 20 {
				panic(err)
			}
			continue
		}
		return s
	}
}

func (s *srv) stop() {
	for _, c := range s.cs {
		c.conn.Close()
	}
	done := make(chan struct{})
	go func() { s.d.Stop(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		// a lookup in flight ends by itself
	}
}

func (s *srv) fail(key, f string, a ...interface{}) { s.r.Violate(s.name, key, f, a...) }

func (s *srv) ping(id *ident, from []byte) []byte {
	s.n++
	return id.pkt(0, &protos.Ping{From: from, To: v4(127, 0, 0, 1, s.addr.Port), Net: netID, Ext: []byte(fmt.Sprint(s.n)), Time: time.Now().Unix()})
}

// reply checks that the packet is a genuine one of the service.
func (s *srv) genuine(b []byte) bool {
	if len(b) < 98 || len(b) > 1200 || b[0] != 0 || !bytes.Equal(b[2:34], s.me.id[:]) {
		s.fail("malformed reply", "%d bytes", len(b))
		return false
	}
	if !ed25519.Verify(ed25519.PublicKey(b[2:34]), payload(b), b[len(b)-64:]) {
		s.fail("reply with a wrong signature", "code %d", b[1])
		return false
	}
	return true
}

// fence pings until the ping is answered, and returns everything else received before.
func (s *srv) fence(c *client, id *ident, from []byte) (other [][]byte) {
	for try := 0; try < 6; try++ {
		p := s.ping(id, from)
		h := crypto.Hash256(payload(p))
		c.send(p)
		end := time.Now().Add(2 * time.Second)
		for time.Now().Before(end) {
			for _, b := range c.take() {
				pong := &protos.Pong{}
				if s.genuine(b) && b[1] == 1 && proto.Unmarshal(payload(b), pong) == nil && bytes.Equal(pong.Echo, h) {
					if pong.Net != netID {
						s.fail("wrong pong", "net %d", pong.Net)
					}
					return other
				}
				other = append(other, b)
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	s.fail("a good ping gets no answer", "six pings of %s without a pong", id.id.Brief())
	return
}

func (s *srv) nodes() map[vnode.NodeID]string {
	out := map[vnode.NodeID]string{}
	addrs := map[string]vnode.NodeID{}
	for _, n := range s.d.Nodes() {
		a := n.Address()
		if _, ok := out[n.ID]; ok {
			s.fail("a node twice in the table", "node %s", n.ID.Brief())
		}
		if o, ok := addrs[a]; ok {
			s.fail("an address twice in the table", "address %s for %s and %s", a, o.Brief(), n.ID.Brief())
		}
		out[n.ID] = a
		addrs[a] = n.ID
	}
	by := map[int]int{}
	for id := range out {
		d := dist(s.me.id, id)
		if d < 225 {
			d = 225
		}
		by[d]++
		if by[d] > 64 {
			s.fail("bucket over its limit", "%d nodes at distance %d", by[d], d)
		}
	}
	if _, ok := out[s.me.id]; ok {
		s.fail("the node itself in the table", "")
	}
	return out
}

func (s *srv) wait(id vnode.NodeID) bool {
	for i := 0; i < 2000; i++ {
		if _, ok := s.nodes()[id]; ok {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// packets: good and forged packets interleaved.
func packets(r *vrep.R, g *rand.Rand, name string) {
	s := start(r, g, name)
	defer s.stop()
	good := newIdent(g)
	c := s.client(good)
	own := v4(127, 0, 0, 1, c.port)
	s.fence(c, good, own)
	if !s.wait(good.id) {
		s.fail("a pinging node is not known", "%s", good.id.Brief())
		return
	}
	legit := map[vnode.NodeID]bool{good.id: true}
	for i := 0; i < 120 && r.NumViolations() < 9; i++ {
		victim := newIdent(g)
		from := v4(127, 0, 1, byte(1+g.Intn(200)), 1000+g.Intn(60000))
		if g.Intn(2) == 0 {
			from = own
		}
		kind := ""
		var bad []byte
		base := s.ping(victim, from)
		if g.Intn(4) == 0 {
			base = victim.pkt(2, &protos.Findnode{Target: good.id[:], Count: 20, Time: time.Now().Unix()})
		}
		n := len(base)
		silent := true
		switch g.Intn(13) {
		case 0:
			kind = "payload changed"
			bad = append([]byte(nil), base...)
			bad[34+g.Intn(n-98)] ^= byte(1 << uint(g.Intn(8)))
		case 1:
			kind = "signature changed"
			bad = append([]byte(nil), base...)
			bad[n-64+g.Intn(64)] ^= byte(1 << uint(g.Intn(8)))
		case 2:
			kind = "claims another id"
			bad = append([]byte(nil), base...)
			copy(bad[2:34], newIdent(g).id[:])
		case 3:
			kind = "signed by another"
			o := newIdent(g)
			bad = append([]byte(nil), base...)
			copy(bad[n-64:], ed25519.Sign(o.key, payload(base)))
		case 4:
			kind = "claims the service's id"
			bad = append([]byte(nil), base...)
			copy(bad[2:34], s.me.id[:])
		case 5:
			kind = "another version"
			bad = append([]byte(nil), base...)
			bad[0] = byte(1 + g.Intn(255))
		case 6:
			kind = "cut"
			bad = base[:g.Intn(n)]
		case 7:
			kind = "lengthened"
			bad = append(append([]byte(nil), base...), make([]byte, 1+g.Intn(100))...)
		case 8:
			kind = "old"
			if base[1] == 0 {
				bad = victim.pkt(0, &protos.Ping{From: from, Net: netID, Time: time.Now().Unix() - 25 - int64(g.Intn(100000))})
			} else {
				bad = victim.pkt(2, &protos.Findnode{Target: good.id[:], Count: 5, Time: time.Now().Unix() - 25 - int64(g.Intn(1000))})
			}
		case 9:
			kind = "unknown code"
			bad = victim.raw(byte(4+g.Intn(252)), payload(base))
		case 10:
			kind = "pong nobody asked for"
			bad = victim.pkt(1, &protos.Pong{From: from, Net: netID, Echo: crypto.Hash256(payload(base)), Time: time.Now().Unix()})
		case 11:
			kind = "neighbours nobody asked for"
			bad = victim.pkt(3, &protos.Neighbors{Nodes: [][]byte{from, v4(127, 0, 0, 2, 99)}, Last: true, Time: time.Now().Unix()})
		case 12:
			// well signed rubbish: the service only has to survive it
			kind = "signed rubbish"
			silent = false
			j := make([]byte, g.Intn(600))
			g.Read(j)
			switch g.Intn(4) {
			case 0:
				j, _ = proto.Marshal(&protos.Ping{From: j[:len(j)/8], To: j[len(j)/2:], Net: netID, Ext: j, Time: time.Now().Unix()})
			case 1:
				j, _ = proto.Marshal(&protos.Findnode{Target: victim.id[:], Count: uint32(g.Intn(3000)), Time: time.Now().Unix() * int64(g.Intn(3))})
			case 2:
				j = payload(base)
				if len(j) > 0 {
					j = append([]byte(nil), j...)
					j[g.Intn(len(j))] ^= byte(1 << uint(g.Intn(8)))
				}
			}
			bad = victim.raw(byte(g.Intn(5)), j)
		}
		c.send(bad)
		if len(bad) > 34 {
			// whoever the packet names
			var id vnode.NodeID
			copy(id[:], bad[2:34])
			if !silent {
				legit[id] = true
			}
		}
		for _, b := range s.fence(c, good, own) {
			if silent {
				s.fail("a bad packet is answered: "+kind, "%s got a reply of code %d", kind, b[1])
			}
		}
		if i%8 == 7 {
			for id := range s.nodes() {
				if !legit[id] {
					s.fail("a bad packet enters a node", "node %s is known without a valid packet of its own (last: %s)", id.Brief(), kind)
				}
			}
		}
		r.Eval("packet "+kind, true)
		r.Count("hostile packets", 1)
		if silent && g.Intn(6) == 0 {
			// the same identity with a good packet is taken
			legit[victim.id] = true
			c.send(s.ping(victim, v4(127, 0, 2, byte(1+g.Intn(250)), 1000+g.Intn(60000))))
			s.fence(c, good, own)
		}
	}
	// what the table says about the good node is what it said
	if a := s.nodes()[good.id]; a != fmt.Sprintf("127.0.0.1:%d", c.port) {
		s.fail("a bad packet changes a known node", "node at port %d is recorded at %s", c.port, a)
	}
}

// lookups: a filled table answers with the closest nodes in packets that fit.
func lookups(r *vrep.R, g *rand.Rand, name string) {
	s := start(r, g, name)
	defer s.stop()
	asker := newIdent(g)
	c := s.client(asker)
	own := v4(127, 0, 0, 1, c.port)
	s.fence(c, asker, own)
	other := s.client(nil)
	n := []int{3, 40, 200, 500}[g.Intn(4)]
	defPort := g.Intn(2) == 0
	long := g.Intn(3) == 0
	var ids []vnode.NodeID
	for i := 0; i < n; i++ {
		id := newIdent(g)
		ids = append(ids, id.id)
		port := 8483
		if !defPort {
			port = 1000 + g.Intn(60000)
		}
		ep := vnode.EndPoint{Host: []byte{127, byte(1 + i/200), byte(g.Intn(250)), byte(1 + i%200)}, Port: port, Typ: vnode.HostIPv4}
		if long && i%3 == 0 {
			ep = vnode.EndPoint{Host: make([]byte, 16), Port: 1000 + g.Intn(60000), Typ: vnode.HostIPv6}
			ep.Host[15] = 1
		}
		b, _ := ep.Serialize()
		other.send(s.ping(id, b))
		if i%20 == 19 {
			s.fence(c, asker, own)
		}
	}
	s.fence(c, asker, own)
	for q := 0; q < 40 && r.NumViolations() < 9; q++ {
		known := s.nodes()
		byAddr := map[string]vnode.NodeID{}
		for id, a := range known {
			byAddr[a] = id
		}
		var target vnode.NodeID
		g.Read(target[:])
		if g.Intn(3) == 0 {
			target = ids[g.Intn(len(ids))]
		}
		if g.Intn(6) == 0 {
			target = s.me.id
		}
		count := 1 + g.Intn(64)
		switch g.Intn(6) {
		case 0:
			count = 1 + g.Intn(4)
		case 1:
			count = 100 + g.Intn(3000)
		}
		var all []int
		for id := range known {
			if id != target {
				all = append(all, dist(target, id))
			}
		}
		sort.Ints(all)
		want := count
		if want > len(all) {
			want = len(all)
		}
		c.take()
		c.send(asker.pkt(2, &protos.Findnode{Target: target[:], Count: uint32(count), Time: time.Now().Unix()}))
		rest := s.fence(c, asker, own)
		var ds []int
		seen := map[string]bool{}
		lasts := 0
		for _, b := range rest {
			if b[1] != 3 {
				continue
			}
			nb := &protos.Neighbors{}
			if err := proto.Unmarshal(payload(b), nb); err != nil {
				s.fail("unreadable neighbours", "%v", err)
				continue
			}
			if nb.Last {
				lasts++
			}
			for _, x := range nb.Nodes {
				var e vnode.EndPoint
				if err := e.Deserialize(x); err != nil {
					s.fail("unreadable endpoint", "%v", err)
					continue
				}
				id, ok := byAddr[e.String()]
				if !ok || seen[e.String()] {
					s.fail("lookup returns a wrong node", "endpoint %s unknown or repeated", e.String())
					continue
				}
				seen[e.String()] = true
				ds = append(ds, dist(target, id))
			}
		}
		if c.big > 0 {
			s.fail("a reply too large to be read", "%d bytes for %d of %d nodes", c.big, count, len(all))
			return
		}
		if len(ds) != want {
			s.fail("lookup returns a wrong number of nodes", "asked for %d, %d known, got %d", count, len(all), len(ds))
			continue
		}
		if want > 0 && lasts != 1 {
			s.fail("lookup answer does not say where it ends", "%d packets marked last", lasts)
		}
		sort.Ints(ds)
		for i := range ds {
			if ds[i] != all[i] {
				s.fail("lookup does not return the closest nodes", "asked for %d of %d: distance %d at rank %d, one at %d is known", count, len(all), ds[i], i, all[i])
				break
			}
		}
		r.Eval(fmt.Sprintf("lookup %d of %d", count, len(all)), len(all) > count)
		r.Count("lookups", 1)
	}
	r.Max("nodes known", int64(len(s.nodes())))
}

// greedy: a lookup asking for very many nodes.
func greedy(r *vrep.R, g *rand.Rand, name string) {
	s := start(r, g, name)
	defer s.stop()
	a := newIdent(g)
	c := s.client(a)
	own := v4(127, 0, 0, 1, c.port)
	s.fence(c, a, own)
	for _, count := range []uint32{1 << 20, 1 << 24, 1 << 26} {
		var m, m2 runtime.MemStats
		runtime.ReadMemStats(&m)
		c.send(a.pkt(2, &protos.Findnode{Target: a.id[:], Count: count, Time: time.Now().Unix()}))
		s.fence(c, a, own)
		runtime.ReadMemStats(&m2)
		if d := m2.TotalAlloc - m.TotalAlloc; d > 32<<20 {
			s.fail("a lookup packet takes unbounded memory", "%d MB allocated for a lookup of %d nodes", d>>20, count)
			break
		}
		r.Eval(fmt.Sprintf("greedy %d", count), true)
	}
}

// rename: nodes change their key or their address.
func rename(r *vrep.R, g *rand.Rand, name string) {
	s := start(r, g, name)
	defer s.stop()
	var cs []*client
	var ids []*ident
	watch := newIdent(g)
	w := s.client(watch)
	for i := 0; i < 4; i++ {
		cs = append(cs, s.client(nil))
		ids = append(ids, newIdent(g))
	}
	var log []string
	for i := 0; i < 25 && r.NumViolations() < 9; i++ {
		c := cs[g.Intn(len(cs))]
		k := g.Intn(len(ids))
		log = append(log, fmt.Sprintf("%d at port %d", k, c.port))
		c.mu.Lock()
		c.as = ids[k]
		c.mu.Unlock()
		before := r.NumViolations()
		s.fence(c, ids[k], v4(127, 0, 0, 1, c.port))
		s.fence(w, watch, v4(127, 0, 0, 1, w.port))
		time.Sleep(time.Duration(1+g.Intn(8)) * time.Millisecond)
		s.nodes()
		if r.NumViolations() > before {
			r.Violate(name, "history", "after %s", strings.Join(log, ", "))
			return
		}
		r.Eval(fmt.Sprintf("rename %d", len(s.nodes())), true)
		r.Count("moves", 1)
	}
}

// flood: a node answers the service's lookup with many endpoints at once.
func flood(r *vrep.R, g *rand.Rand, name string) {
	s := start(r, g, name)
	defer s.stop()
	a := newIdent(g)
	c := s.client(a)
	own := v4(127, 0, 0, 1, c.port)
	asked := make(chan bool, 10)
	// some of the endpoints are live: one honest node and several that answer under names they cannot prove
	honest := newIdent(g)
	live := [][]byte{v4(127, 0, 0, 1, s.client(honest).port)}
	var mu sync.Mutex
	forged := map[vnode.NodeID]string{}
	lies := 0
	for i := 0; i < 6; i++ {
		i, me, victim := i, newIdent(g), newIdent(g)
		l := s.client(nil)
		bit := g.Intn(512)
		l.forge = func(b []byte) []byte {
			p := me.pkt(1, &protos.Pong{From: v4(127, 0, 0, 1, l.port), Net: netID, Echo: crypto.Hash256(payload(b)), Time: time.Now().Unix()})
			what := ""
			switch i % 3 {
			case 0:
				what = "a pong in the name of another, signed by the sender"
				copy(p[2:34], victim.id[:])
			case 1:
				what = "a pong with a changed signature"
				p[len(p)-64+bit/8] ^= 1 << uint(bit%8)
			default:
				what = "a pong without signature"
				copy(p[len(p)-64:], make([]byte, 64))
			}
			var id vnode.NodeID
			copy(id[:], p[2:34])
			mu.Lock()
			forged[id] = what
			lies++
			mu.Unlock()
			return p
		}
		live = append(live, v4(127, 0, 0, 1, l.port))
	}
	c.onFind = func(c *client) {
		c.send(a.pkt(3, &protos.Neighbors{Nodes: live, Time: time.Now().Unix()}))
		for i := 0; i < 12; i++ {
			var eps [][]byte
			for j := 0; j < 30; j++ {
				eps = append(eps, v4(127, 3, byte(i), byte(1+j), 1000+i))
			}
			if i == 5 {
				eps = nil
			}
			c.send(a.pkt(3, &protos.Neighbors{Nodes: eps, Time: time.Now().Unix()}))
		}
		asked <- true
	}
	s.fence(c, a, own)
	select {
	case <-asked:
	case <-time.After(45 * time.Second):
		r.Assume("the service did not look up nodes within 45 s")
		return
	}
	time.Sleep(300 * time.Millisecond)
	s.fence(c, a, own)
	r.Eval("flood", true)
	if s.wait(honest.id) {
		r.Count("nodes found by a pong", 1)
	}
	time.Sleep(300 * time.Millisecond)
	known := s.nodes()
	mu.Lock()
	defer mu.Unlock()
	for id, what := range forged {
		if known[id] != "" {
			s.fail("a forged pong enters a node", "%s is known after %s", id.Brief(), what)
		}
		r.Eval("forged pong: "+what, true)
	}
	r.Count("forged pongs", int64(lies))
}

// full: a bucket is full and its nodes are dead; newcomers may replace them, once each.
func full(r *vrep.R, g *rand.Rand, name string) {
	s := start(r, g, name)
	defer s.stop()
	watch := newIdent(g)
	w := s.client(watch)
	own := v4(127, 0, 0, 1, w.port)
	other := s.client(nil)
	for i := 0; i < 260; i++ {
		other.send(s.ping(newIdent(g), v4(127, 2, byte(i), 1, 9000)))
		if i%20 == 19 {
			s.fence(w, watch, own)
			s.nodes()
		}
	}
	n := len(s.nodes())
	var late []*client
	for i := 0; i < 20; i++ {
		id := newIdent(g)
		c := s.client(id)
		late = append(late, c)
		s.fence(c, id, v4(127, 0, 0, 1, c.port))
		s.fence(c, id, v4(127, 0, 0, 1, c.port))
	}
	end := time.Now().Add(29 * time.Second)
	for time.Now().Before(end) && r.NumViolations() < 9 {
		s.nodes()
		for _, c := range late {
			c.send(s.ping(c.as, v4(127, 0, 0, 1, c.port)))
		}
		time.Sleep(time.Second)
	}
	m := s.nodes()
	in := 0
	for _, c := range late {
		if _, ok := m[c.as.id]; ok {
			in++
		}
	}
	r.Count("newcomers in a full table", int64(in))
	r.Eval(fmt.Sprintf("full table %d", n/10), true)
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	r := vrep.Open("C30", "one packet or lookup sent to the real discovery service and judged by its replies and its table; distinct by kind, non-trivial when the service knows nodes")
	one := func(name string, f func(r *vrep.R, g *rand.Rand, name string)) {
		if !r.Want(name) || r.NumViolations() > 8 {
			return
		}
		g := r.Rand(name)
		r.Guard(name, "panic", func() { f(r, g, name) })
		r.Count("services", 1)
	}
	for i := 0; i < 2; i++ {
		one(fmt.Sprintf("greedy%d", i), greedy)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); one("flood0", flood) }()
	go func() { defer wg.Done(); one("full0", full) }()
	vrep.Parallel(r.Scale(60, 600), 6, func(i int) {
		switch i % 5 {
		case 0, 1:
			one(fmt.Sprintf("packets%d", i), packets)
		case 2, 3:
			one(fmt.Sprintf("lookups%d", i), lookups)
		default:
			one(fmt.Sprintf("rename%d", i), rename)
		}
	})
	wg.Wait()
	r.Close()
}
