package discovery

import (
	"sync"

	"github.com/vitelabs/go-vite/v2/net/vnode"
)

// VerifCheck is one liveness check the table asked for; Done reports its outcome.
type VerifCheck struct {
	ID   vnode.NodeID
	Addr string
	Done func(err error)
}

// VerifTable is a node table whose liveness checks are answered by the harness.
type VerifTable struct {
	t       *table
	mu      sync.Mutex
	pending []VerifCheck
}

func (v *VerifTable) ping(n *Node, cb func(error)) {
	v.mu.Lock()
	v.pending = append(v.pending, VerifCheck{n.ID, n.Address(), cb})
	v.mu.Unlock()
}

func VerifNewTable(id vnode.NodeID, net int) *VerifTable {
	v := &VerifTable{}
	v.t = newTable(id, net, newListBucket, v)
	return v
}

// Checks takes the checks asked for so far.
func (v *VerifTable) Checks() []VerifCheck {
	v.mu.Lock()
	defer v.mu.Unlock()
	out := v.pending
	v.pending = nil
	return out
}

func (v *VerifTable) Add(n vnode.Node) bool       { return v.t.add(&Node{Node: n}) != nil }
func (v *VerifTable) Remove(id vnode.NodeID) bool { return v.t.remove(id) != nil }
func (v *VerifTable) Bubble(id vnode.NodeID) bool { return v.t.bubble(id) }
func (v *VerifTable) Size() int                   { return v.t.size() }
func (v *VerifTable) Max() int                    { return v.t.max() }
func (v *VerifTable) Sub(f func(*vnode.Node)) int { return v.t.Sub(f) }
func (v *VerifTable) Reset()                      { v.t.reset() }
func (v *VerifTable) SubTree() uint               { return v.t.subTreeToFind() }
func (v *VerifTable) Resolve(id vnode.NodeID) *vnode.Node {
	return verifV(v.t.resolve(id))
}
func (v *VerifTable) ResolveAddr(a string) *vnode.Node { return verifV(v.t.resolveAddr(a)) }
func (v *VerifTable) Nodes(n int) []*vnode.Node        { return verifVs(v.t.nodes(n)) }
func (v *VerifTable) Near(id vnode.NodeID, n int) []*vnode.Node {
	return verifVs(v.t.findNeighbors(id, n))
}

func verifV(n *Node) *vnode.Node {
	if n == nil {
		return nil
	}
	return &n.Node
}

func verifVs(ns []*Node) (out []*vnode.Node) {
	for _, n := range ns {
		out = append(out, verifV(n))
	}
	return
}

// Buckets lists the nodes of every bucket, least recently active first.
func (v *VerifTable) Buckets() (out [][]*vnode.Node, size int) {
	v.t.rw.RLock()
	defer v.t.rw.RUnlock()
	for _, b := range v.t.buckets {
		out = append(out, verifVs(b.nodes(0)))
		if b.size() > size {
			size = b.size()
		}
	}
	return
}
