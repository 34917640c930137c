// Command discvtab decides that the node table of discovery stays sane over histories of
// additions, failures and lookups (C30).
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/net/discovery"
	"github.com/vitelabs/go-vite/v2/net/vnode"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

const bucketCap = 64

func dist(a, b vnode.NodeID) int {
	for i := range a {
		if x := a[i] ^ b[i]; x != 0 {
			n := 0
			for x&0x80 == 0 {
				n++
				x <<= 1
			}
			return 256 - i*8 - n
		}
	}
	return 0
}

func idAt(g *rand.Rand, base vnode.NodeID, d int) vnode.NodeID {
	id := base
	if d == 0 {
		return id
	}
	bit := 256 - d
	id[bit/8] ^= 0x80 >> uint(bit%8)
	for b := bit + 1; b < 256; b++ {
		if g.Intn(2) == 0 {
			id[b/8] ^= 0x80 >> uint(b%8)
		}
	}
	return id
}

func ep(g *rand.Rand, ports int) vnode.EndPoint {
	switch g.Intn(8) {
	case 0:
		return vnode.EndPoint{Host: []byte(fmt.Sprintf("host%d.example.org", g.Intn(20))), Typ: vnode.HostDomain, Port: 8483 + g.Intn(ports)}
	case 1:
		ip := make([]byte, 16)
		ip[0], ip[15] = 0x20, byte(g.Intn(20))
		return vnode.EndPoint{Host: ip, Typ: vnode.HostIPv6, Port: 8483 + g.Intn(ports)}
	}
	return vnode.EndPoint{Host: []byte{127, 0, byte(g.Intn(4)), byte(1 + g.Intn(20))}, Typ: vnode.HostIPv4, Port: 8483 + g.Intn(ports)}
}

type run struct {
	r    *vrep.R
	g    *rand.Rand
	name string
	self vnode.NodeID
	t    *discovery.VerifTable
	wait []discovery.VerifCheck
	log  []string
	seen map[string]bool
}

func (x *run) fail(key, f string, a ...interface{}) {
	tail := x.log
	if len(tail) > 12 {
		tail = tail[len(tail)-12:]
	}
	x.r.Violate(x.name, key, "%s; last operations: %s", fmt.Sprintf(f, a...), strings.Join(tail, "; "))
}

func (x *run) note(f string, a ...interface{}) { x.log = append(x.log, fmt.Sprintf(f, a...)) }

func addr(n *vnode.Node) string { return n.EndPoint.String() }

// sane judges the table as it is.
func (x *run) sane() map[vnode.NodeID]string {
	bs, size := x.t.Buckets()
	ids := map[vnode.NodeID]string{}
	addrs := map[string]vnode.NodeID{}
	total := 0
	if size > bucketCap {
		x.fail("bucket over its limit", "a bucket holds %d nodes", size)
	}
	for i, b := range bs {
		if len(b) > bucketCap {
			x.fail("bucket over its limit", "bucket %d lists %d nodes", i, len(b))
		}
		d := 0
		for j, n := range b {
			total++
			if n.ID == x.self || n.ID == vnode.ZERO {
				x.fail("the node itself in the table", "bucket %d", i)
			}
			if _, ok := ids[n.ID]; ok {
				x.fail("a node twice in the table", "node %s twice (bucket %d)", n.ID.Brief(), i)
			}
			ids[n.ID] = addr(n)
			if o, ok := addrs[addr(n)]; ok {
				x.fail("an address twice in the table", "address %s for %s and %s", addr(n), o.Brief(), n.ID.Brief())
			}
			addrs[addr(n)] = n.ID
			k := dist(x.self, n.ID)
			if i == 0 {
				continue
			}
			if j > 0 && k != d {
				x.fail("node in a wrong bucket", "bucket %d holds distances %d and %d", i, d, k)
			}
			d = k
		}
	}
	if s := x.t.Size(); s != total {
		x.fail("table size is wrong", "size %d, %d nodes held", s, total)
	}
	for a := range x.seen {
		if _, ok := addrs[a]; !ok {
			if n := x.t.ResolveAddr(a); n != nil {
				x.fail("a removed node is still found by its address", "address %s resolves to %s, which is in no bucket", a, n.ID.Brief())
			}
		}
	}
	for a := range addrs {
		x.seen[a] = true
	}
	for id, a := range ids {
		if n := x.t.Resolve(id); n == nil || n.ID != id {
			x.fail("a held node cannot be found", "node %s resolves to %v", id.Brief(), n)
		}
		if n := x.t.ResolveAddr(a); n == nil || n.ID != id {
			x.fail("a held address cannot be found", "address %s of %s resolves to %v", a, id.Brief(), n)
		}
	}
	return ids
}

func (x *run) lookup(target vnode.NodeID, count int, ids map[vnode.NodeID]string) {
	got := x.t.Near(target, count)
	var all []int
	for id := range ids {
		if id != target {
			all = append(all, dist(target, id))
		}
	}
	sort.Ints(all)
	want := count
	if want > len(all) {
		want = len(all)
	}
	seen := map[vnode.NodeID]bool{}
	var ds []int
	for _, n := range got {
		if _, ok := ids[n.ID]; !ok || seen[n.ID] {
			x.fail("lookup returns a wrong node", "node %s unknown or repeated", n.ID.Brief())
		}
		seen[n.ID] = true
		ds = append(ds, dist(target, n.ID))
	}
	sort.Ints(ds)
	if len(ds) != want {
		x.fail("lookup returns a wrong number of nodes", "asked for %d of %d, got %d", count, len(all), len(ds))
		return
	}
	for i := range ds {
		if ds[i] != all[i] {
			x.fail("lookup does not return the closest nodes", "asked for %d of %d nodes: distance %d at rank %d, a node at %d is known", count, len(all), ds[i], i, all[i])
			return
		}
	}
	x.r.Eval(fmt.Sprintf("near %d of %d", count, len(all)), len(all) > count)
	n := x.g.Intn(2 + len(ids))
	ns := x.t.Nodes(n)
	if n == 0 {
		n = len(ids)
	}
	if n > len(ids) {
		n = len(ids)
	}
	dup := map[vnode.NodeID]bool{}
	for _, k := range ns {
		if _, ok := ids[k.ID]; !ok || dup[k.ID] {
			x.fail("node list returns a wrong node", "node %s unknown or repeated", k.ID.Brief())
		}
		dup[k.ID] = true
	}
	if len(ns) != n {
		x.fail("node list has a wrong length", "asked for %d of %d, got %d", n, len(ids), len(ns))
	}
}

func (x *run) settle() {
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	time.Sleep(100 * time.Microsecond)
	x.wait = append(x.wait, x.t.Checks()...)
}

func history(r *vrep.R, g *rand.Rand, name string) {
	x := &run{r: r, g: g, name: name, seen: map[string]bool{}}
	g.Read(x.self[:])
	x.t = discovery.VerifNewTable(x.self, 3)
	// few distances, so that buckets fill
	nd := 1 + g.Intn(4)
	var ds []int
	for i := 0; i < nd; i++ {
		d := 256 - g.Intn(8)
		if g.Intn(4) == 0 {
			d = 1 + g.Intn(256)
		}
		ds = append(ds, d)
	}
	var pool []vnode.NodeID
	for i, n := 0, 20+g.Intn(300); i < n; i++ {
		pool = append(pool, idAt(g, x.self, ds[g.Intn(nd)]))
	}
	ports := 1 + g.Intn(40)
	for step, steps := 0, 100+g.Intn(500); step < steps && r.NumViolations() < 9; step++ {
		before := x.sane()
		switch k := g.Intn(20); {
		case k < 12:
			n := vnode.Node{ID: pool[g.Intn(len(pool))], EndPoint: ep(g, ports), Net: 3}
			if g.Intn(60) == 0 {
				n.ID = x.self
			}
			x.note("add %s %s", n.ID.Brief()[:6], n.EndPoint.String())
			held := x.t.Add(n)
			after := x.sane()
			_, had := before[n.ID]
			usedAddr := x.t.ResolveAddr(n.EndPoint.String())
			if !had && n.ID != x.self && !held && (usedAddr == nil || usedAddr.ID != n.ID) {
				x.fail("an added node is missing", "node %s was taken but is not there", n.ID.Brief())
			}
			for id := range before {
				if _, ok := after[id]; !ok {
					x.fail("adding a node drops another", "node %s vanished", id.Brief())
				}
			}
			same := 0
			for id := range before {
				if dist(x.self, id) == dist(x.self, n.ID) {
					same++
				}
			}
			r.Eval(fmt.Sprintf("add had=%v addr=%v full=%v", had, usedAddr != nil, same >= bucketCap), len(before) > 0)
			if held {
				x.settle()
			}
		case k < 14:
			id := pool[g.Intn(len(pool))]
			x.note("remove %s", id.Brief()[:6])
			_, had := before[id]
			if ok := x.t.Remove(id); ok != had {
				x.fail("removal reports a wrong result", "node %s known %v, removed %v", id.Brief(), had, ok)
			}
			if _, ok := x.sane()[id]; ok {
				x.fail("a removed node is still there", "node %s", id.Brief())
			}
		case k < 15:
			id := pool[g.Intn(len(pool))]
			_, had := before[id]
			x.note("active %s", id.Brief()[:6])
			if ok := x.t.Bubble(id); ok != had {
				x.fail("activity reports a wrong result", "node %s known %v, got %v", id.Brief(), had, ok)
			}
		case k < 18 && len(x.wait) > 0:
			i := g.Intn(len(x.wait))
			c := x.wait[i]
			x.wait = append(x.wait[:i:i], x.wait[i+1:]...)
			failed := g.Intn(3) > 0
			x.note("check of %s %s failed=%v", c.ID.Brief()[:6], c.Addr, failed)
			if failed {
				c.Done(errors.New("timeout"))
			} else {
				c.Done(nil)
			}
			after := x.sane()
			for id := range before {
				if _, ok := after[id]; !ok && (!failed || id != c.ID) {
					x.fail("a check drops a node it was not about", "check of %s (failed %v) dropped %s", c.ID.Brief(), failed, id.Brief())
				}
			}
			if _, ok := after[c.ID]; ok && failed && after[c.ID] == c.Addr && before[c.ID] == c.Addr {
				x.fail("a node that failed its check stays", "node %s", c.ID.Brief())
			}
			r.Eval(fmt.Sprintf("check failed=%v", failed), true)
		case k < 18:
		case k < 19 && g.Intn(30) == 0:
			x.note("reset")
			x.t.Reset()
			if n := len(x.sane()); n != 0 {
				x.fail("reset leaves nodes", "%d nodes", n)
			}
		default:
			target := pool[g.Intn(len(pool))]
			if g.Intn(2) == 0 {
				target = idAt(g, x.self, g.Intn(257))
			}
			count := 1 + g.Intn(bucketCap)
			if g.Intn(3) == 0 {
				count = 1 + g.Intn(5)
			}
			x.lookup(target, count, before)
		}
		r.Count("operations", 1)
		r.Max("nodes", int64(len(before)))
	}
	x.settle()
	for _, c := range x.wait {
		c.Done(errors.New("timeout"))
	}
	x.sane()
}

// conc: nodes arrive from several goroutines (packets and finished checks do).
func conc(r *vrep.R, g *rand.Rand, name string) {
	x := &run{r: r, g: g, name: name, seen: map[string]bool{}}
	g.Read(x.self[:])
	x.t = discovery.VerifNewTable(x.self, 3)
	var ids []vnode.NodeID
	for i := 0; i < 90; i++ {
		ids = append(ids, idAt(g, x.self, 256-g.Intn(2)))
	}
	var eps []vnode.EndPoint
	for i := 0; i < 60; i++ {
		eps = append(eps, ep(g, 40))
	}
	for round := 0; round < 20; round++ {
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			g2 := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 30; i++ {
					switch g2.Intn(6) {
					case 0:
						x.t.Remove(ids[g2.Intn(len(ids))])
					case 1:
						x.t.Near(ids[g2.Intn(len(ids))], 10)
					case 2:
						for _, c := range x.t.Checks() {
							if g2.Intn(2) == 0 {
								c.Done(errors.New("timeout"))
							} else {
								c.Done(nil)
							}
						}
					default:
						x.t.Add(vnode.Node{ID: ids[g2.Intn(len(ids))], EndPoint: eps[g2.Intn(len(eps))], Net: 3})
					}
				}
			}()
		}
		wg.Wait()
		x.note("round %d", round)
		x.sane()
		r.Count("concurrent rounds", 1)
	}
}

func ids(r *vrep.R, g *rand.Rand, name string) {
	var a vnode.NodeID
	g.Read(a[:])
	for d := 0; d <= 256; d++ {
		b := idAt(g, a, d)
		if got := vnode.Distance(a, b); got != uint(d) {
			r.Violate(name, "distance", "distance of %s and %s is %d, got %d", a, b, d, got)
		}
		c := vnode.RandFromDistance(a, uint(d))
		if got := dist(a, c); got != d {
			r.Violate(name, "random id at a distance", "asked for distance %d, got %d", d, got)
		}
		r.Eval(fmt.Sprintf("distance %d", d), true)
	}
	for i := 0; i < 60; i++ {
		e := ep(g, 57000)
		b, err := e.Serialize()
		if err != nil || len(b) != e.Length() {
			r.Violate(name, "endpoint cannot be written", "%s: %v", e.String(), err)
			continue
		}
		var f vnode.EndPoint
		if err := f.Deserialize(b); err != nil || !f.Equal(&e) {
			r.Violate(name, "endpoint changes on the wire", "%s came back as %s (%v)", e.String(), f.String(), err)
		}
		p, err := vnode.ParseEndPoint(e.String())
		if err != nil || !p.Equal(&e) {
			r.Violate(name, "endpoint changes as text", "%s came back as %s (%v)", e.String(), p.String(), err)
		}
		n := vnode.Node{EndPoint: e, Net: g.Intn(100), Ext: b}
		g.Read(n.ID[:])
		nb, err := n.Serialize()
		var m vnode.Node
		if err != nil || m.Deserialize(nb) != nil || !m.Equal(&n) {
			r.Violate(name, "node changes on the wire", "%s came back as %s", n.String(), m.String())
		}
		q, err := vnode.ParseNode(n.String())
		n.Ext = nil
		if err != nil || !q.Equal(&n) {
			r.Violate(name, "node changes as text", "%s came back as %v (%v)", n.String(), q, err)
		}
		j := make([]byte, g.Intn(80))
		g.Read(j)
		f.Deserialize(j)
		_ = f.String()
		m.Deserialize(j)
		vnode.ParseNode(string(j))
		vnode.ParseEndPoint(string(j))
		if len(nb) > 0 {
			nb[g.Intn(len(nb))] ^= byte(1 + g.Intn(255))
			m.Deserialize(nb)
			_ = m.String()
			s := []byte(n.String())
			s[g.Intn(len(s))] = byte(g.Intn(128))
			vnode.ParseNode(string(s[:g.Intn(len(s))]))
		}
	}
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	r := vrep.Open("C30", "one operation on the node table followed by a judgement of the whole table; distinct by operation, whether node and address were known and whether the bucket was full, non-trivial when the table is not empty")
	for _, k := range []struct {
		name string
		n, t int
		f    func(r *vrep.R, g *rand.Rand, name string)
	}{{"table", 500, 6000, history}, {"conc", 60, 600, conc}, {"ids", 40, 400, ids}} {
		k := k
		vrep.Parallel(r.Scale(k.n, k.t), 8, func(i int) {
			name := fmt.Sprintf("%s%d", k.name, i)
			if !r.Want(name) || r.NumViolations() > 8 || r.OverBudget() {
				return
			}
			g := r.Rand(name)
			r.Guard(name, k.name+" panic", func() { k.f(r, g, name) })
			r.Count(k.name, 1)
		})
	}
	r.Close()
}
