// Command pooln gives a node's block pool the blocks of a history with forks in a hostile order and
// checks that the node ends with the longest valid snapshot chain (C28).
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/pool"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

// event is one block of the history.
type event struct {
	a   *ledger.AccountBlock
	s   *ledger.SnapshotBlock
	bad bool
}

// wire is what the node under test knows of the network.
type wire struct {
	mu      sync.Mutex
	r       *rand.Rand
	abs     map[types.Hash]*ledger.AccountBlock
	sbs     map[types.Hash]*ledger.SnapshotBlock
	onA     net.AccountBlockCallback
	onS     net.SnapshotBlockCallback
	node    *sim.Node
	chunks  []*net.Chunk
	lossy   int // fetches out of ten that stay unanswered
	queue   chan func()
	stop    chan struct{}
	wg      sync.WaitGroup
	fetches int64
	popped  int64
	state   net.SyncState
}

func (w *wire) BroadcastSnapshotBlock(*ledger.SnapshotBlock)    {}
func (w *wire) BroadcastSnapshotBlocks([]*ledger.SnapshotBlock) {}
func (w *wire) BroadcastAccountBlock(*ledger.AccountBlock)      {}
func (w *wire) BroadcastAccountBlocks([]*ledger.AccountBlock)   {}
func (w *wire) SubscribeAccountBlock(f net.AccountBlockCallback) int {
	w.onA = f
	return 1
}
func (w *wire) UnsubscribeAccountBlock(int) {}
func (w *wire) SubscribeSnapshotBlock(f net.SnapshotBlockCallback) int {
	w.onS = f
	return 1
}
func (w *wire) UnsubscribeSnapshotBlock(int)                  {}
func (w *wire) SubscribeSyncStatus(net.SyncStateCallback) int { return 1 }
func (w *wire) UnsubscribeSyncStatus(int)                     {}
func (w *wire) SyncState() net.SyncState                      { return w.state }

func (w *wire) Peek() *net.Chunk {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.chunks) == 0 {
		return nil
	}
	return w.chunks[0]
}

func (w *wire) Pop(end types.Hash) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.chunks) > 0 && w.chunks[0].SnapshotRange[1].Hash == end {
		w.chunks = w.chunks[1:]
		w.popped++
	}
}

func (w *wire) answer(f func()) {
	w.mu.Lock()
	w.fetches++
	lost := w.r.Intn(10) < w.lossy
	w.mu.Unlock()
	if lost {
		return
	}
	select {
	case w.queue <- f:
	default:
	}
}

func (w *wire) FetchSnapshotBlocks(h types.Hash, n uint64) {
	w.answer(func() {
		for ; n > 0; n-- {
			b := w.sbs[h]
			if b == nil {
				return
			}
			w.snapshot(b, types.RemoteFetch)
			h = b.PrevHash
		}
	})
}
func (w *wire) FetchSnapshotBlocksWithHeight(h types.Hash, height, n uint64) {
	w.FetchSnapshotBlocks(h, n)
}
func (w *wire) FetchAccountBlocks(h types.Hash, n uint64, a *types.Address) {
	w.answer(func() {
		for ; n > 0; n-- {
			b := w.abs[h]
			if b == nil {
				return
			}
			w.account(b, types.RemoteFetch)
			h = b.PrevHash
		}
	})
}
func (w *wire) FetchAccountBlocksWithHeight(h types.Hash, n uint64, a *types.Address, s uint64) {
	w.FetchAccountBlocks(h, n, a)
}

// account and snapshot hand over a block as the network does: after its own checks.
func (w *wire) account(b *ledger.AccountBlock, src types.BlockSource) {
	c := sim.Wire(b)
	if w.node.Ver.VerifyNetAccountBlock(c) == nil {
		w.onA(c.AccountAddress, c, src)
	}
}
func (w *wire) snapshot(b *ledger.SnapshotBlock, src types.BlockSource) {
	c := sim.WireSnapshot(b)
	if w.node.Ver.VerifyNetSnapshotBlock(c) == nil {
		w.onS(c, src)
	}
}
func (w *wire) know(l []event) {
	for _, e := range l {
		if e.a != nil {
			w.abs[e.a.Hash] = e.a
		} else {
			w.sbs[e.s.Hash] = e.s
		}
	}
}
func (w *wire) give(e event, src types.BlockSource) {
	if e.a != nil {
		w.account(e.a, src)
	} else {
		w.snapshot(e.s, src)
	}
}

func (w *wire) serve() {
	defer w.wg.Done()
	for {
		select {
		case f := <-w.queue:
			f()
		case <-w.stop:
			return
		}
	}
}

type runner struct {
	r    *vrep.R
	name string
	rnd  *rand.Rand
	d    *sim.Driver
	evs  []event
	max  uint64 // height of the highest snapshot so far, valid or not
	bad  int    // invalid blocks
}

// history drives a node through a random history with removed branches and ends it with the
// longest chain: longer than anything else by what it takes to switch to it.
func (x *runner) history(steps int) {
	d := x.d
	for k := range d.Weights {
		switch k {
		case "restart", "nonsense":
			d.Weights[k] = 0
		case "rollback":
			d.Weights[k] = 3
		case "snapshot":
			d.Weights[k] += 4
		}
	}
	seen := map[types.Hash]bool{}
	add := func(b *ledger.AccountBlock) {
		if !seen[b.Hash] {
			seen[b.Hash] = true
			x.evs = append(x.evs, event{a: b})
		}
	}
	d.OnAccept = func(b *ledger.AccountBlock) { add(b) }
	d.OnSnapshot = func(b *ledger.SnapshotBlock, _ []*ledger.AccountBlock) {
		if b.Height > x.max {
			x.max = b.Height
		}
		x.evs = append(x.evs, event{s: b})
	}
	d.WarmUp()
	for i := 0; i < steps; i++ {
		d.Step()
	}
	if x.rnd.Intn(2) == 0 {
		x.bad = x.forge()
	}
	for i := 0; d.S.Height() < x.max+4 || len(d.S.Unconf) > 0; i++ {
		d.DoSnapshot(0, -1)
		if i > 60 {
			break
		}
	}
}

// forge adds blocks that are signed correctly and still not valid.
func (x *runner) forge() int {
	n := 0
	w := x.d.W
	var out []event
	for _, e := range x.evs {
		out = append(out, e)
		if x.rnd.Intn(12) != 0 {
			continue
		}
		if e.a != nil {
			k := w.ByAddr[e.a.AccountAddress]
			if k == nil || !e.a.IsSendBlock() {
				continue
			}
			b := sim.Wire(e.a)
			b.Amount = new(big.Int).Lsh(big.NewInt(1), 120)
			b.Hash = b.ComputeHash()
			b.Signature, b.PublicKey, _ = k.Sign(b.Hash.Bytes())
			out = append(out, event{a: b, bad: true})
			n++
			continue
		}
		k := w.Users[0] // not a producer
		prev, ts := e.s, *e.s.Timestamp
		for i, l := 0, 1+x.rnd.Intn(6); i < l; i++ {
			ts = ts.Add(time.Second)
			t := ts
			b := &ledger.SnapshotBlock{PrevHash: prev.Hash, Height: prev.Height + 1, Timestamp: &t, SnapshotContent: ledger.SnapshotContent{}, Version: prev.Version}
			b.Hash = b.ComputeHash()
			b.Signature, b.PublicKey, _ = k.Sign(b.Hash.Bytes())
			out = append(out, event{s: b, bad: true})
			prev = b
			if b.Height > x.max {
				x.max = b.Height
			}
			n++
		}
	}
	x.evs = out
	return n
}

func (x *runner) order() (string, []event) {
	l := append([]event{}, x.evs...)
	split := func(first func(e event) bool) {
		sort.SliceStable(l, func(i, j int) bool { return first(l[i]) && !first(l[j]) })
	}
	final := map[types.Hash]bool{}
	for _, c := range x.d.S.Chunks {
		final[c.Snap.Hash] = true
		for _, b := range c.Blocks {
			final[b.Hash] = true
		}
	}
	isFinal := func(e event) bool {
		if e.a != nil {
			return final[e.a.Hash]
		}
		return final[e.s.Hash]
	}
	mode := []string{"as made", "shuffled", "backwards", "near order", "snapshots first", "accounts first", "final chain first", "abandoned first"}[x.rnd.Intn(8)]
	switch mode {
	case "shuffled":
		x.rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	case "backwards":
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case "near order":
		n := 2 + x.rnd.Intn(30)
		for i := range l {
			j := i + x.rnd.Intn(n)
			if j < len(l) {
				l[i], l[j] = l[j], l[i]
			}
		}
	case "snapshots first":
		split(func(e event) bool { return e.s != nil })
	case "accounts first":
		split(func(e event) bool { return e.a != nil })
	case "final chain first":
		split(isFinal)
	case "abandoned first":
		split(func(e event) bool { return !isFinal(e) })
	}
	return mode, l
}

func (x *runner) chunks(from, n int) []*net.Chunk {
	var out []*net.Chunk
	cs := x.d.S.Chunks
	for i := from; i < n; {
		k := 1 + x.rnd.Intn(20)
		if i+k > n {
			k = n - i
		}
		var l []ledger.SnapshotChunk
		for _, c := range cs[i : i+k] {
			sc := ledger.SnapshotChunk{SnapshotBlock: sim.WireSnapshot(c.Snap)}
			for _, b := range c.Blocks {
				sc.AccountBlocks = append(sc.AccountBlocks, sim.Wire(b))
			}
			l = append(l, sc)
		}
		out = append(out, net.NewChunk(l, types.RemoteSync))
		i += k
	}
	return out
}

// node is a node with a running pool whose network is w.
type node struct {
	t       *sim.Node
	w       *wire
	p       pool.BlockPool
	stopped bool
}

func (n *node) halt() {
	if !n.stopped {
		n.stopped = true
		n.p.Stop()
		close(n.w.stop)
		n.w.wg.Wait()
	}
}

func (n *node) close() {
	n.halt()
	n.t.Close()
}

func (x *runner) start() *node {
	dir := x.d.NewDir("t")
	os.MkdirAll(dir, 0755)
	t, err := x.d.W.OpenCfg(dir, config.Chain{VmLogAll: true})
	if err != nil {
		x.r.Violate(x.name, "node-start", "node does not start: %v", err)
		return nil
	}
	w := &wire{r: rand.New(rand.NewSource(x.rnd.Int63())), node: t, abs: map[types.Hash]*ledger.AccountBlock{}, sbs: map[types.Hash]*ledger.SnapshotBlock{},
		queue: make(chan func(), 10000), stop: make(chan struct{}), state: net.SyncDone, lossy: []int{0, 0, 3, 7}[x.rnd.Intn(4)]}
	w.know(x.evs)
	p, err := pool.NewPool(t.Chain)
	if err != nil {
		x.r.Violate(x.name, "pool-start", "pool does not start: %v", err)
		t.Close()
		return nil
	}
	p.Init(w, t.Ver, t.Cons.SBPReader())
	p.Start()
	w.wg.Add(1)
	go w.serve()
	return &node{t: t, w: w, p: p}
}

// reach waits until the node is at head.
func (n *node) reach(head *ledger.SnapshotBlock, patience time.Duration) bool {
	start, again := time.Now(), time.Now()
	for n.t.Chain.GetLatestSnapshotBlock().Hash != head.Hash {
		time.Sleep(20 * time.Millisecond)
		if time.Since(again) > 5*time.Second {
			// the network goes on: its latest block is heard of again
			again = time.Now()
			n.w.snapshot(head, types.RemoteBroadcast)
		}
		if time.Since(start) > patience {
			return false
		}
	}
	return true
}

// invalidBranch gives a node that is at the head of the network's chain a longer branch that is not
// valid, and then the rest of the valid chain.
func (x *runner) invalidBranch() {
	d := x.d
	grow := func(n int) {
		for i := 0; i < n; i++ {
			d.DoSnapshot(0, -1)
		}
	}
	d.WarmUp()
	grow(4)
	at := int(d.S.Height())
	grow(14)
	for _, c := range d.S.Chunks {
		for _, b := range c.Blocks {
			x.evs = append(x.evs, event{a: b})
		}
		x.evs = append(x.evs, event{s: c.Snap})
	}
	var bad []*ledger.SnapshotBlock
	prev := d.S.Chunks[at-2].Snap
	ts := *prev.Timestamp
	for i := 0; i < 8; i++ {
		ts = ts.Add(time.Second)
		t := ts
		b := &ledger.SnapshotBlock{PrevHash: prev.Hash, Height: prev.Height + 1, Timestamp: &t, SnapshotContent: ledger.SnapshotContent{}, Version: prev.Version}
		b.Hash = b.ComputeHash()
		b.Signature, b.PublicKey, _ = d.W.Users[0].Sign(b.Hash.Bytes())
		bad = append(bad, b)
		x.evs = append(x.evs, event{s: b, bad: true})
		prev = b
	}
	n := x.start()
	if n == nil {
		return
	}
	defer n.close()
	give := func(from, to int) {
		for _, c := range d.S.Chunks[from:to] {
			for _, b := range c.Blocks {
				n.w.account(b, types.RemoteBroadcast)
			}
			n.w.snapshot(c.Snap, types.RemoteBroadcast)
		}
	}
	give(0, at-1)
	if !n.reach(d.S.Chunks[at-2].Snap, patience) {
		x.r.Violate(x.name, "no-convergence", "given the chain's blocks in order, the node is at snapshot %d after %v, the chain at %d", n.t.Chain.GetLatestSnapshotBlock().Height, patience, at)
		return
	}
	for _, b := range bad {
		n.w.snapshot(b, types.RemoteBroadcast)
	}
	time.Sleep(3 * time.Second)
	give(at-1, at+3)
	if !n.reach(d.S.Chunks[at+2].Snap, 20*time.Second) {
		x.r.Violate(x.name, "longer-invalid-branch", "a node at snapshot %d that hears of a branch of %d snapshots nobody had the right to produce stays there, with the valid chain at %d", n.t.Chain.GetLatestSnapshotBlock().Height, len(bad), at+4)
	}
	give(at+3, at+13)
	if !n.reach(d.S.Chunks[at+12].Snap, patience) {
		x.r.Violate(x.name, "no-convergence", "after %v the node is at snapshot %d, the network's chain at %d and an invalid branch at %d", patience, n.t.Chain.GetLatestSnapshotBlock().Height, at+14, at+8)
	}
	x.r.Count("longer invalid branches", 1)
}

func (x *runner) run() {
	x.history(x.r.Scale(60, 160))
	d := x.d
	if len(d.S.Unconf) > 0 || d.S.Height() < x.max {
		x.r.Count("histories without an end", 1)
		return
	}
	mode, l := x.order()
	head := d.A.Chain.GetLatestSnapshotBlock()

	n := x.start()
	if n == nil {
		return
	}
	defer n.close()
	t, w, p := n.t, n.w, n.p

	chunked := 0
	if x.rnd.Intn(3) == 0 {
		chunked = 1 + x.rnd.Intn(len(d.S.Chunks))
		cs := x.chunks(0, chunked)
		w.mu.Lock()
		w.chunks = cs
		w.mu.Unlock()
	}
	lost, dup, pace := []int{0, 0, 1, 4}[x.rnd.Intn(4)], x.rnd.Intn(4), x.rnd.Intn(3)
	for _, e := range l {
		if x.rnd.Intn(10) < lost && !(e.s != nil && e.s.Hash == head.Hash) {
			continue
		}
		w.give(e, types.RemoteBroadcast)
		for x.rnd.Intn(10) < dup {
			w.give(l[x.rnd.Intn(len(l))], types.RemoteBroadcast)
		}
		switch pace {
		case 1:
			time.Sleep(time.Duration(x.rnd.Intn(8)) * time.Millisecond)
		case 2:
			if x.rnd.Intn(30) == 0 {
				time.Sleep(time.Duration(x.rnd.Intn(400)) * time.Millisecond)
			}
		}
	}
	w.snapshot(head, types.RemoteBroadcast)
	start := time.Now()
	if !n.reach(head, patience) {
		at := t.Chain.GetLatestSnapshotBlock()
		on := "another branch"
		if at.Height > 1 && at.Height <= d.S.Height() && d.S.Chunks[at.Height-2].Snap.Hash == at.Hash {
			on = "the longest chain"
		}
		x.r.Violate(x.name, "no-convergence", "after %v the node is at snapshot %d of %s, the network's longest chain is at %d (%d blocks, %d of them invalid, %s, %d in ten not sent, %d in ten fetches lost, %d snapshots in chunks): %s",
			patience, at.Height, on, head.Height, len(l), x.bad, mode, lost, w.lossy, chunked, strings.Replace(fmt.Sprint(p.Snapshot()), "\n", " ", -1))
		return
	}
	took := time.Since(start)
	n.halt()
	x.r.Count("histories", 1)
	x.r.Count("blocks", int64(len(l)))
	x.r.Count("invalid blocks", int64(x.bad))
	x.r.Count("fetches", w.fetches)
	x.r.Count("chunks", w.popped)
	x.r.Count("branches abandoned", int64(d.Stats["rollback"]))
	x.r.Count("order: "+mode, 1)
	x.r.Max("ms to converge", took.Milliseconds())
	x.r.Eval(fmt.Sprint(x.name, mode, x.bad > 0, lost, w.lossy, dup, chunked), d.Stats["rollback"] > 0)

	// what is left over of other branches and still valid may stay unconfirmed; it is removed before comparing
	extra := t.Chain.GetAllUnconfirmedBlocks()
	x.r.Count("blocks left unconfirmed", int64(len(extra)))
	for len(extra) > 0 {
		if _, err := t.Chain.DeleteAccountBlocks(extra[0].AccountAddress, extra[0].Hash); err != nil {
			x.r.Violate(x.name, "leftover", "an unconfirmed block cannot be removed: %v", err)
			return
		}
		extra = t.Chain.GetAllUnconfirmedBlocks()
	}
	f, err := sim.NewFollower(d.W, d.NewDir("f"), config.Chain{VmLogAll: true})
	if err != nil {
		x.r.Violate(x.name, "node-start", "node does not start: %v", err)
		return
	}
	defer f.Close()
	if err := f.Sync(d.S); err != nil {
		x.r.Count("in-order node refused", 1)
		return
	}
	o := sim.FPOpt{}
	if diff := sim.Diff(sim.Fingerprint(f.N, o), sim.Fingerprint(t, o)); len(diff) > 0 {
		if len(diff) > 4 {
			diff = diff[:4]
		}
		x.r.Violate(x.name, "state-differs", "the node at snapshot %d differs from a node that got the blocks in order (%s): %s", head.Height, mode, strings.Join(diff, "; "))
	}
}

var patience = 240 * time.Second

func main() {
	sim.Setup()
	if os.Getenv("DBGLOG") != "" {
		log15.Root().SetHandler(log15.StreamHandler(os.Stderr, log15.LogfmtFormat()))
	} else {
		log15.Root().SetHandler(log15.DiscardHandler())
	}
	r := vrep.Open("C28", "a history with abandoned branches delivered to a fresh node's pool; distinct by history and delivery")
	n := r.Scale(64, 600)
	vrep.Parallel(n, 24, func(i int) {
		name := fmt.Sprintf("n%d", i)
		if i == 0 {
			name = "invalid"
		}
		if !r.Want(name) || r.NumViolations() > 4 || r.OverBudget() {
			return
		}
		x := &runner{r: r, name: name, rnd: r.Rand(name)}
		w := sim.NewWorld(sim.WorldOpt{Label: fmt.Sprintf("%s/%d", name, r.Seed), Users: 3 + x.rnd.Intn(3), SBPs: 1 + x.rnd.Intn(2)})
		d, err := sim.NewDriver(w, sim.Scratch(name), rand.New(rand.NewSource(x.rnd.Int63())), config.Chain{VmLogAll: true})
		if err != nil {
			r.Violate(name, "node-start", "node does not start: %v", err)
			return
		}
		x.d = d
		defer d.Close()
		if i == 0 {
			x.invalidBranch()
			return
		}
		x.run()
	})
	r.Close()
}
