package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

// C35: readers run against one writer. After every commit the writer records what each query
// answers while nothing changes; whatever a reader got meanwhile must be one of the answers
// recorded between the last commit before it began and the first after it ended. A removal of
// blocks passes through states of its own, so single values read across one are only required
// to have been held at some time.

type query struct {
	name string
	run  func(n *sim.Node) string
	atom bool // one value, not a collection
	from int  // record the answers begin with
	vals []string
	ever map[string]bool
}

type reading struct {
	q    *query
	s, e int
	got  string
}

func ab(b *ledger.AccountBlock, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if b == nil {
		return "none"
	}
	if !(b.IsSendBlock() && types.IsContractAddr(b.AccountAddress)) && b.ComputeHash() != b.Hash {
		return "torn block " + b.Hash.String()
	}
	return fmt.Sprintf("%s %x", b.Hash, sha256.Sum256(sim.SerAB(b)))
}

func abs(l []*ledger.AccountBlock, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	s := make([]string, len(l))
	for i, b := range l {
		s[i] = ab(b, nil)
	}
	return strings.Join(s, ",")
}

func sb(b *ledger.SnapshotBlock, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if b == nil {
		return "none"
	}
	return fmt.Sprint(b.Hash, b.PrevHash, b.Height, b.Timestamp.Unix(), b.Seed, b.SeedHash, b.Version)
}

// full is sb for a block with its content.
func full(b *ledger.SnapshotBlock, err error) string {
	if err == nil && b != nil && b.ComputeHash() != b.Hash {
		return "torn snapshot " + b.Hash.String()
	}
	return sb(b, err)
}

func val(v interface{}, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprint(v)
}

func sorted(l []string) string { sort.Strings(l); return strings.Join(l, ",") }

type c35 struct {
	x       *runner
	mu      sync.Mutex // guards queries and records
	qs      []*query
	n       int64 // records
	loose   []bool
	readers []*reader
	node    atomic.Value
	addrs   map[types.Address]bool
	hashes  map[types.Hash]bool
}

type reader struct {
	mu  sync.Mutex
	log []reading
	at  atomic.Value // name of the query under way
	t   int64
}

func (c *c35) add(name string, atom bool, run func(n *sim.Node) string) {
	c.qs = append(c.qs, &query{name: name, run: run, atom: atom, from: len(c.loose), ever: map[string]bool{}})
}

func (c *c35) address(a types.Address) {
	if c.addrs[a] {
		return
	}
	c.addrs[a] = true
	c.add("latest block of", true, func(n *sim.Node) string { return ab(n.Chain.GetLatestAccountBlock(a)) })
	c.add("latest height of", true, func(n *sim.Node) string { return val(n.Chain.GetLatestAccountHeight(a)) })
	c.add("balance of", true, func(n *sim.Node) string { return val(n.Chain.GetBalance(a, ledger.ViteTokenId)) })
	c.add("balances of", false, func(n *sim.Node) string {
		m, err := n.Chain.GetBalanceMap(a)
		if err != nil {
			return "error " + err.Error()
		}
		var l []string
		for t, v := range m {
			l = append(l, fmt.Sprint(t, v))
		}
		return sorted(l)
	})
	c.add("unconfirmed blocks of", false, func(n *sim.Node) string { return abs(n.Chain.GetUnconfirmedBlocks(a), nil) })
	c.add("unreceived sends to", false, func(n *sim.Node) string {
		l, err := n.Chain.GetOnRoadBlocksByAddr(a, 0, 1000)
		if err != nil {
			return "error " + err.Error()
		}
		var s []string
		for _, b := range l {
			s = append(s, ab(b, nil))
		}
		return sorted(s)
	})
	c.add("stake for", true, func(n *sim.Node) string { return val(n.Chain.GetStakeBeneficialAmount(a)) })
	c.add("quota used by", false, func(n *sim.Node) string { return fmt.Sprint(n.Chain.GetQuotaUsedList(a)) })
	for h := uint64(2); h < 30; h += uint64(1 + c.x.rnd.Intn(4)) {
		h := h
		c.add("block by height of", true, func(n *sim.Node) string { return ab(n.Chain.GetAccountBlockByHeight(a, h)) })
	}
	c.add("blocks by height of", false, func(n *sim.Node) string { return abs(n.Chain.GetAccountBlocksByHeight(a, 8, 5)) })
	if types.IsContractAddr(a) {
		c.add("storage of", false, func(n *sim.Node) string {
			var l []string
			for k, v := range sim.StorageOf(n, a) {
				l = append(l, fmt.Sprintf("%x=%x", k, v))
			}
			return fmt.Sprintf("%x", sha256.Sum256([]byte(sorted(l))))
		})
		c.add("code of", true, func(n *sim.Node) string {
			b, err := n.Chain.GetContractCode(a)
			return val(fmt.Sprintf("%x", b), err)
		})
		c.add("meta of", true, func(n *sim.Node) string {
			m, err := n.Chain.GetContractMeta(a)
			if m == nil {
				return val("none", err)
			}
			return val(fmt.Sprintf("%+v", *m), err)
		})
		c.add("logs of", false, func(n *sim.Node) string {
			l, err := n.Chain.GetVMLogListByAddress(a, 1, 40, nil)
			if err != nil {
				return "error " + err.Error()
			}
			var s []string
			for _, v := range l {
				s = append(s, fmt.Sprint(v.Topics, v.Data))
			}
			return strings.Join(s, ",")
		})
	}
}

func (c *c35) block(h types.Hash) {
	if c.hashes[h] {
		return
	}
	c.hashes[h] = true
	c.add("block by hash", true, func(n *sim.Node) string { return ab(n.Chain.GetAccountBlockByHash(h)) })
	c.add("complete block by hash", true, func(n *sim.Node) string { return ab(n.Chain.GetCompleteBlockByHash(h)) })
	c.add("block exists", true, func(n *sim.Node) string { return val(n.Chain.IsAccountBlockExisted(h)) })
	c.add("receive of send", true, func(n *sim.Node) string { return ab(n.Chain.GetReceiveAbBySendAb(h)) })
	c.add("is received", true, func(n *sim.Node) string { return val(n.Chain.IsReceived(h)) })
	c.add("confirming snapshot", true, func(n *sim.Node) string { return sb(n.Chain.GetConfirmSnapshotHeaderByAbHash(h)) })
	c.add("confirmations", true, func(n *sim.Node) string { return val(n.Chain.GetConfirmedTimes(h)) })
	c.add("call depth", true, func(n *sim.Node) string { return val(n.Chain.GetCallDepth(h)) })
}

func (c *c35) global() {
	c.add("latest snapshot", true, func(n *sim.Node) string { return full(n.Chain.GetLatestSnapshotBlock(), nil) })
	c.add("all unconfirmed blocks", false, func(n *sim.Node) string {
		var l []string
		for _, b := range n.Chain.GetAllUnconfirmedBlocks() {
			l = append(l, ab(b, nil))
		}
		return sorted(l)
	})
	c.add("content to snapshot", false, func(n *sim.Node) string {
		var l []string
		for a, h := range n.Chain.GetContentNeedSnapshot() {
			l = append(l, fmt.Sprint(a, h.Height, h.Hash))
		}
		return sorted(l)
	})
	c.add("global quota", true, func(n *sim.Node) string { return fmt.Sprint(n.Chain.GetGlobalQuota()) })
	c.add("accounts", false, func(n *sim.Node) string {
		var l []string
		n.Chain.IterateAccounts(func(a types.Address, id uint64, err error) bool { l = append(l, fmt.Sprint(a, err)); return true })
		return sorted(l)
	})
	c.add("contracts", false, func(n *sim.Node) string {
		l, err := n.Chain.GetContractList(types.DELEGATE_GID)
		if err != nil {
			return "error " + err.Error()
		}
		var s []string
		for _, a := range l {
			s = append(s, a.String())
		}
		return sorted(s)
	})
	c.add("tokens", false, func(n *sim.Node) string {
		m, err := n.Chain.GetAllTokenInfo()
		if err != nil {
			return "error " + err.Error()
		}
		var l []string
		for t, v := range m {
			l = append(l, fmt.Sprintf("%s %+v", t, *v))
		}
		return sorted(l)
	})
	for h := uint64(1); h < 40; h += 2 {
		h := h
		c.add("snapshot by height", true, func(n *sim.Node) string { return full(n.Chain.GetSnapshotBlockByHeight(h)) })
		if h%5 == 0 {
			c.add("snapshot header by height", true, func(n *sim.Node) string { return sb(n.Chain.GetSnapshotHeaderByHeight(h)) })
			c.add("snapshot headers", false, func(n *sim.Node) string {
				l, err := n.Chain.GetSnapshotHeadersByHeight(h, false, 4)
				if err != nil {
					return "error " + err.Error()
				}
				var s []string
				for _, b := range l {
					s = append(s, sb(b, nil))
				}
				return strings.Join(s, ",")
			})
			c.add("ledger chunk", false, func(n *sim.Node) string {
				l, err := n.Chain.GetSubLedger(h, h+2)
				if err != nil {
					return "error " + err.Error()
				}
				var s []string
				for _, k := range l {
					var m []string
					for _, b := range k.AccountBlocks {
						m = append(m, ab(b, nil))
					}
					s = append(s, full(k.SnapshotBlock, nil)+"["+sorted(m)+"]")
				}
				return strings.Join(s, ",")
			})
		}
	}
}

// record takes the answers of the state just reached.
func (c *c35) record(loose bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := c.x.d.A
	for _, q := range c.qs {
		v := q.run(n)
		q.vals = append(q.vals, v)
		q.ever[v] = true
	}
	c.loose = append(c.loose, loose)
	atomic.StoreInt64(&c.n, int64(len(c.loose)))
}

// judge compares what the readers got.
func (c *c35) judge() {
	for _, r := range c.readers {
		r.mu.Lock()
		log := r.log
		r.log = nil
		r.mu.Unlock()
		for _, g := range log {
			first, last := g.s-1, g.e
			if first < g.q.from {
				first = g.q.from
			}
			if last >= len(c.loose) {
				last = len(c.loose) - 1
			}
			ok, loose, moved := false, false, false
			for i := first; i <= last; i++ {
				v := g.q.vals[i-g.q.from]
				if v == g.got {
					ok = true
				}
				if i > first {
					moved = moved || v != g.q.vals[i-1-g.q.from]
					loose = loose || c.loose[i]
				}
			}
			if loose && !ok {
				ok = !g.q.atom || g.q.from > 0 || g.q.ever[g.got] || strings.HasPrefix(g.got, "error") || g.got == "none"
				c.x.r.Count("answers across a removal", 1)
			}
			c.x.r.Count("answers", 1)
			if moved {
				c.x.r.Count("answers while they changed", 1)
			}
			c.x.r.Eval(g.q.name+fmt.Sprint(moved, loose), true)
			if !ok || strings.HasPrefix(g.got, "torn") {
				c.x.fail("concurrent "+g.q.name, "a reader got %.300s; committed answers meanwhile: %.300s .. %.300s", g.got, g.q.vals[first-g.q.from], g.q.vals[last-g.q.from])
				return
			}
		}
	}
}

func (c *c35) read(r *reader, g *rand.Rand, stop *int32) {
	for atomic.LoadInt32(stop) == 0 {
		c.mu.Lock()
		q := c.qs[g.Intn(len(c.qs))]
		c.mu.Unlock()
		n := c.node.Load().(*sim.Node)
		s := int(atomic.LoadInt64(&c.n))
		if s <= q.from { // no answer recorded yet
			continue
		}
		r.at.Store(q.name)
		atomic.StoreInt64(&r.t, time.Now().UnixNano())
		got := q.run(n)
		atomic.StoreInt64(&r.t, 0)
		e := int(atomic.LoadInt64(&c.n))
		r.mu.Lock()
		if len(r.log) < 5000 {
			r.log = append(r.log, reading{q, s, e, got})
		}
		r.mu.Unlock()
		if g.Intn(50) == 0 {
			time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
		}
	}
}

func runC35(x *runner) {
	d := x.d
	d.Weights["restart"] = 0
	d.Weights["rollback"] = 2
	d.Weights["rollbackAcc"] = 3
	d.Weights["flush"] = 1
	c := &c35{x: x, addrs: map[types.Address]bool{}, hashes: map[types.Hash]bool{}}
	c.node.Store(d.A)
	c.global()
	for _, k := range d.W.Users {
		c.address(k.Addr)
	}
	c.address(types.AddressQuota)
	c.address(types.AddressAsset)
	c.record(true)
	removing := false
	d.Before = func(op string) { removing = op == "rollback" || op == "rollbackAcc" }
	d.OnAccept = func(b *ledger.AccountBlock) {
		c.record(removing)
		c.mu.Lock()
		if len(c.hashes) < 24 || bytes.Equal(b.Hash[:1], []byte{7}) {
			c.block(b.Hash)
			for _, s := range b.SendBlockList {
				c.block(s.Hash)
			}
		}
		c.mu.Unlock()
	}
	d.OnSnapshot = func(b *ledger.SnapshotBlock, dropped []*ledger.AccountBlock) { c.record(removing || len(dropped) > 0) }
	d.OnRollback = func(string) { c.record(true) }
	d.WarmUp()
	for i, t := range d.LiveToys() {
		if i < 3 {
			c.address(t.Addr)
		}
	}
	c.record(true)
	var stop int32
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		r := &reader{}
		r.at.Store("")
		c.readers = append(c.readers, r)
		g := rand.New(rand.NewSource(x.rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.read(r, g, &stop)
		}()
	}
	wg.Add(2)
	var flushing int64
	go func() { // the node flushes on its own while blocks come in
		defer wg.Done()
		g := rand.New(rand.NewSource(int64(len(x.name))))
		for atomic.LoadInt32(&stop) == 0 {
			atomic.StoreInt64(&flushing, time.Now().UnixNano())
			d.A.Flush()
			atomic.StoreInt64(&flushing, 0)
			x.r.Count("flushes", 1)
			time.Sleep(time.Duration(g.Intn(40)) * time.Millisecond)
		}
	}()
	var working int64
	go func() { // nothing may block for ever
		defer wg.Done()
		for atomic.LoadInt32(&stop) == 0 {
			time.Sleep(200 * time.Millisecond)
			old := func(p *int64) bool {
				t := atomic.LoadInt64(p)
				return t != 0 && time.Since(time.Unix(0, t)) > 90*time.Second
			}
			what := ""
			for _, r := range c.readers {
				if old(&r.t) {
					what = "reading " + r.at.Load().(string)
				}
			}
			if old(&flushing) {
				what = "flushing"
			}
			if old(&working) {
				what = "inserting"
			}
			if what != "" {
				x.r.Violate(x.name, "concurrent deadlock", "%s does not return; history tail: %s", what, d.Tail(14))
				pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
				x.r.Close()
				os.Exit(1)
			}
		}
	}()
	n := x.r.Scale(110, 400)
	for x.step = 0; x.step < n && !x.bad && !x.r.OverBudget(); x.step++ {
		atomic.StoreInt64(&working, time.Now().UnixNano())
		d.Step()
		atomic.StoreInt64(&working, 0)
		c.record(removing)
		c.judge()
		removing = false
		if x.step%40 == 39 {
			c.mu.Lock()
			for i, t := range d.LiveToys() {
				if i < 5 {
					c.address(t.Addr)
				}
			}
			c.mu.Unlock()
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	if !x.bad {
		c.judge()
	}
	x.r.Count("records", int64(len(c.loose)))
	x.r.Max("queries", int64(len(c.qs)))
}
