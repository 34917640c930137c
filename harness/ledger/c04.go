package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	chain_flusher "github.com/vitelabs/go-vite/v2/ledger/chain/flusher"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

// watched sits between the flusher and one store: it knows at which step of a flush the
// process is, takes crash images there, and injects faults.
type watched struct {
	chain_flusher.Storage
	c    *crasher
	name string
}

type image struct {
	dir     string
	where   string
	want    types.Hash // latest snapshot block a reopened node must have
	commits int
}

type crasher struct {
	x       *runner
	mu      sync.Mutex
	node    *sim.Node
	nstores int
	prev    types.Hash // on disk before this flush
	target  types.Hash // what this flush writes
	prep    int
	redo    int
	done    int
	after   int
	rate    int
	images  []image
	fault   string // "commit": some commits fail; "redo": the redo log cannot be produced
	faulted bool
	busy    bool // keep accepting blocks while flushing
	flushes int
}

func (c *crasher) attach(n *sim.Node) {
	c.node = n
	c.prev = n.Chain.GetLatestSnapshotBlock().Hash
	c.target = c.prev
	idx, blk, st := n.Chain.DBs()
	l := []struct {
		n string
		s chain_flusher.Storage
	}{{"blocks", blk}, {"state", st.Store()}, {"stateRedo", st.RedoStore()}, {"index", idx.Store()}}
	if p := n.Chain.Plugins(); p != nil {
		l = append(l, struct {
			n string
			s chain_flusher.Storage
		}{"plugins", p.Store()})
	}
	c.nstores = len(l)
	for _, e := range l {
		n.Chain.Flusher().ReplaceStore(e.s.Id(), &watched{e.s, c, e.n})
	}
	c.reset()
}

func (c *crasher) reset() { c.prep, c.redo, c.done, c.after = 0, 0, 0, 0 }

// shoot copies the ledger directory as a killed process would leave it.
func (c *crasher) shoot(where string, want types.Hash) {
	if c.rate <= 0 || c.x.rnd.Intn(c.rate) != 0 {
		return
	}
	dir := c.x.d.NewDir("img")
	if err := sim.CopyDir(c.node.Dir, dir); err != nil {
		panic(err)
	}
	c.images = append(c.images, image{dir, where, want, c.done})
}

func (w *watched) Prepare() {
	c := w.c
	if c.prep == 0 {
		c.target = c.node.Chain.GetLatestSnapshotBlock().Hash
		c.flushes++
		c.shoot("before the flush", c.prev)
	}
	c.prep++
	w.Storage.Prepare()
	if c.prep == c.nstores {
		c.prep = 0
		c.redo, c.done, c.after = 0, 0, 0
		c.shoot("after preparing", c.prev)
	}
}

func (w *watched) RedoLog() ([]byte, error) {
	c := w.c
	c.shoot(fmt.Sprintf("writing the redo log, %d stores written", c.redo), c.prev)
	c.redo++
	if c.fault == "redo" && c.x.rnd.Intn(2) == 0 {
		c.fault = ""
		c.faulted = true
		return nil, errors.New("injected fault")
	}
	c.work()
	return w.Storage.RedoLog()
}

// work lets the node go on while a flush is in progress.
func (c *crasher) work() {
	if !c.busy || c.x.rnd.Intn(3) != 0 {
		return
	}
	for i := 0; i < 4; i++ {
		c.x.d.Step()
		c.x.r.Count("ops_during_flush", 1)
	}
	if c.x.rnd.Intn(2) == 0 {
		c.x.d.DoSnapshot(0, -1)
	}
}

func (w *watched) Commit() error {
	c := w.c
	time.Sleep(time.Duration(c.rnd(400)) * time.Microsecond) // stores commit in parallel: vary the order
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.done == 0 && c.rate > 0 && c.x.rnd.Intn(c.rate) == 0 {
		// a redo log torn anywhere while it is written counts for nothing
		dir := c.x.d.NewDir("img")
		if err := sim.CopyDir(c.node.Dir, dir); err != nil {
			panic(err)
		}
		var f string
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Name() == "flush.redo.log" {
				f = p
			}
			return nil
		})
		fi, err := os.Stat(f)
		if err != nil || fi.Size() == 0 {
			c.x.fail("no-redo-log", "stores are committed without a redo log on disk")
		} else {
			k := c.x.rnd.Int63n(fi.Size())
			if c.x.rnd.Intn(2) == 0 {
				k = fi.Size() - 1 - c.x.rnd.Int63n(min64(fi.Size(), 40))
			}
			os.Truncate(f, k)
			c.images = append(c.images, image{dir, fmt.Sprintf("redo log torn at %d of %d", k, fi.Size()), c.prev, 0})
		}
	}
	c.work()
	c.shoot(fmt.Sprintf("committing, %d of %d stores done, next %s", c.done, c.nstores, w.name), c.target)
	c.done++
	if c.fault == "commit" && c.x.rnd.Intn(3) == 0 {
		c.faulted = true
		if c.x.rnd.Intn(2) == 0 {
			w.Storage.Commit()
		}
		return errors.New("injected fault")
	}
	return w.Storage.Commit()
}

func (w *watched) PatchRedoLog(b []byte) error {
	w.c.shoot("redoing in place, next "+w.name, w.c.target)
	return w.Storage.PatchRedoLog(b)
}

func (w *watched) AfterCommit() {
	if w.c.after == 0 {
		w.c.shoot("all stores committed", w.c.target)
	}
	w.c.after++
	w.Storage.AfterCommit()
}

func (c *crasher) rnd(n int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.x.rnd.Intn(n)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// flushed tells the crasher that a flush ended.
func (c *crasher) flushed() {
	if c.faulted && c.fault == "" { // redo fault: nothing was written
		c.faulted = false
	} else {
		c.prev = c.target
	}
	c.shoot("after the flush", c.prev)
}

// runC04: while random histories are flushed, rolled back and restarted, crash images are
// taken at the steps of flushing; every image must reopen in the state the ledger had at the
// snapshot which that step guarantees, and be able to go on from there.
func runC04(x *runner) {
	d := x.d
	f, err := sim.NewFollower(d.W, d.NewDir("f"), config.Chain{VmLogAll: true})
	if err != nil {
		x.fail("follower", "%v", err)
		return
	}
	defer f.Close()
	f.Keep = true
	f.Reset()
	posts := map[types.Hash]sim.FP{}
	sync := func() bool {
		if x.bad {
			return false
		}
		if err := f.Sync(d.S); err != nil {
			x.fail("replay-refused", "replaying the confirmed history on a fresh node: %v", err)
			return false
		}
		for h, fp := range f.Post {
			if sb, _ := f.N.Chain.GetSnapshotHashByHeight(h); sb != nil {
				posts[*sb] = fp
			}
		}
		return true
	}
	d.Weights["rollback"], d.Weights["rollbackAcc"], d.Weights["restart"], d.Weights["flush"] = 0, 2, 0, 0
	d.WarmUp()
	if !sync() {
		return
	}
	c := &crasher{x: x, rate: 0}
	d.A.Flush()
	c.attach(d.A)
	c.rate = 6

	// check reopens the images
	check := func() *image {
		defer func() {
			for _, im := range c.images {
				os.RemoveAll(im.dir)
			}
			c.images = nil
		}()
		var last *image
		for i := range c.images {
			im := c.images[i]
			want, ok := posts[im.want]
			if !ok {
				continue
			}
			if !x.reopen(im, want) {
				return nil
			}
			last = &im
		}
		return last
	}
	x.steps(110, 300, func(op string) {
		switch d.R.Intn(12) {
		case 0, 1:
			if !sync() {
				return
			}
			c.fault = []string{"", "", "", "commit", "redo"}[d.R.Intn(5)]
			c.faulted = false
			c.reset()
			c.busy = d.R.Intn(2) == 0
			d.A.Flush()
			c.busy = false
			if c.faulted {
				x.r.Count("faulted_flushes", 1)
			}
			if c.fault == "" && c.faulted {
				x.r.Count("failed_redo_logs", 1)
			} else {
				c.faulted = false
			}
			c.flushed()
			c.fault, c.faulted = "", false
			// the running node is not disturbed by the flush
			if p := append(d.S.CheckBalances(d.A), d.S.CheckChains(d.A)...); len(p) > 0 {
				x.fail("live-state/"+kind(p), "after a flush: %s", sim.Brief(p))
				return
			}
			if len(d.S.Unconf) == 0 && sync() {
				if df := sim.Diff(posts[d.A.Chain.GetLatestSnapshotBlock().Hash], sim.Fingerprint(d.A, f.Opt)); len(df) > 0 {
					x.fail("live-state/"+diffKey(df), "after a flush: %s", sim.Brief(df))
					return
				}
				x.r.Count("live_states_compared", 1)
			}
			check()
		case 2:
			h := d.S.Height()
			if h < 4 || !sync() {
				return
			}
			// a rollback flushes too
			c.reset()
			if !d.DoRollback(1 + d.R.Intn(int(min64(int64(h-2), 6)))) {
				x.fail("rollback-refused", "%s", d.Tail(1))
				return
			}
			f.Reset()
			if !sync() {
				return
			}
			x.r.Count("rollbacks", 1)
			c.flushed()
			check()
		case 3:
			// lose everything since the last flush and go on from there
			if !sync() {
				return
			}
			n, err := d.A.Restart(d.NewDir("a"), false)
			if err != nil {
				x.fail("reopen", "after a crash with nothing in progress: %v", err)
				return
			}
			d.A = n
			got := n.Chain.GetLatestSnapshotBlock()
			if got.Hash != c.prev {
				x.fail("wrong-snapshot/idle", "reopened at snapshot %d %s, last flushed %s", got.Height, got.Hash, c.prev)
				return
			}
			d.S.RollbackTo(got.Height+1, false)
			if got.Height < f.At {
				f.Reset()
			}
			if !sync() {
				return
			}
			if df := sim.Diff(posts[got.Hash], sim.Fingerprint(n, f.Opt)); len(df) > 0 {
				x.fail("reopened-state/idle/"+diffKey(df), "crash with nothing in progress: %s", sim.Brief(df))
				return
			}
			x.r.Count("crashes_continued", 1)
			c.attach(n)
		}
	})
	x.r.Count("flushes_watched", int64(c.flushes))
}

// reopen starts a node on a crash image and compares; then it replays what came later.
func (x *runner) reopen(im image, want sim.FP) bool {
	d := x.d
	n, err := d.W.OpenCfg(im.dir, d.Cfg)
	if err != nil {
		x.fail("reopen", "crash %s: the ledger does not open: %v", im.where, err)
		return false
	}
	defer func() { n.Close() }()
	if x.rnd.Intn(4) == 0 {
		// crash again right after the recovery
		m, err := n.Restart(d.NewDir("img2"), false)
		if err != nil {
			x.fail("reopen-twice", "crash %s, then again after recovery: %v", im.where, err)
			return false
		}
		n = m
		defer os.RemoveAll(m.Dir)
		im.where += ", and again after recovery"
		x.r.Count("double_crashes", 1)
	}
	sb := n.Chain.GetLatestSnapshotBlock()
	if sb.Hash != im.want {
		x.fail("wrong-snapshot/"+step(im.where), "crash %s: reopened at snapshot %d %s, should be %s", im.where, sb.Height, sb.Hash, im.want)
		return false
	}
	opt := sim.FPOpt{}
	got := sim.Fingerprint(n, opt)
	if df := sim.Diff(want, got); len(df) > 0 {
		x.fail("reopened-state/"+step(im.where)+"/"+diffKey(df), "crash %s: reopened at snapshot %d in a state it never had: %s", im.where, sb.Height, sim.Brief(df))
		return false
	}
	x.r.Count("images."+step(im.where), 1)
	x.r.Eval(fmt.Sprintf("%s/%s/%d/%s", step(im.where), im.want, im.commits, im.where), true)
	x.r.Count("facts_compared", int64(len(want)))
	// go on from there
	h := sb.Height
	if h < d.S.Height() && (h == 1 || d.S.Chunks[h-2].Snap.Hash == sb.Hash) && x.rnd.Intn(3) == 0 {
		for _, ch := range d.S.Chunks[h-1:] {
			for _, b := range ch.Blocks {
				if err := n.Accept(sim.Wire(b)); err != nil {
					x.fail("recovered-refuses-block", "crash %s: after recovery the node refuses the block %s %d it had before: %v", im.where, b.AccountAddress, b.Height, err)
					return false
				}
			}
			if inv, err := n.AcceptSnapshot(sim.WireSnapshot(ch.Snap)); err != nil || len(inv) > 0 {
				x.fail("recovered-refuses-snapshot", "crash %s: after recovery the node refuses snapshot %d: %v (%d dropped)", im.where, ch.Snap.Height, err, len(inv))
				return false
			}
		}
		x.r.Count("recovered_and_continued", 1)
	}
	return true
}

func step(s string) string {
	for i, r := range s {
		if r == ',' || (r >= '0' && r <= '9') {
			return s[:i]
		}
	}
	return s
}
