package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	pkgerrors "github.com/pkg/errors"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/pool/batch"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

type item struct {
	n        int
	owner    *types.Address
	h        uint64
	id       types.Hash
	prev     types.Hash
	keys     []types.Hash // own hash and the sends it contains
	deps     []types.Hash
	snap     *types.Hash
	accepted int // order of acceptance, 0 when not accepted
	state    int // 0 not run, 1 running, 2 done, 3 failed
	runs     int
}

func (i *item) ReferHashes() ([]types.Hash, []types.Hash, *types.Hash) { return i.keys, i.deps, i.snap }
func (i *item) Owner() *types.Address                                  { return i.owner }
func (i *item) Hash() types.Hash                                       { return i.id }
func (i *item) Height() uint64                                         { return i.h }
func (i *item) PrevHash() types.Hash                                   { return i.prev }
func (i *item) String() string {
	if i.owner == nil {
		return fmt.Sprintf("S%d#%d", i.h, i.n)
	}
	return fmt.Sprintf("%x:%d#%d", i.owner[0], i.h, i.n)
}

var errNot = errors.New("not found")

func c26(race bool) {
	r := vrep.Open("C26", "one batch built from random account and snapshot blocks and executed with delays and failures, every dependency checked when a block starts; distinct by number of levels, parallel buckets and outcome, non-trivial with several levels")
	n := r.Scale(24000, 200000)
	if race {
		n = r.Scale(2500, 20000)
	}
	vrep.Parallel(n, 8, func(i int) {
		name := fmt.Sprintf("b%d", i)
		if !r.Want(name) || r.NumViolations() > 8 || r.OverBudget() {
			return
		}
		r.Guard(name, "panic", func() { oneBatch(r, r.Rand(name), name, race) })
	})
	r.Close()
}

func oneBatch(r *vrep.R, rnd *rand.Rand, name string, race bool) {
	hash := func(n int, x int) types.Hash { return types.DataHash([]byte(fmt.Sprint(name, n, x))) }
	stored := map[types.Hash]bool{}
	storedSnap := map[types.Hash]bool{}
	var all []*item
	byKey := map[types.Hash]*item{}
	na := 1 + rnd.Intn(7)
	heads := map[int]*item{}
	addrs := make([]types.Address, na)
	var sends []types.Hash
	n := 0
	mk := func(owner *types.Address, prev *item) *item {
		n++
		it := &item{n: n, owner: owner, h: 1, id: hash(n, 0)}
		if prev != nil {
			it.h, it.prev = prev.h+1, prev.id
		}
		it.keys = []types.Hash{it.id}
		return it
	}
	for a := range addrs {
		addrs[a][0] = byte(a + 1)
		if rnd.Intn(3) > 0 {
			for k := rnd.Intn(3); k >= 0; k-- {
				it := mk(&addrs[a], heads[a])
				heads[a] = it
				stored[it.id] = true
				sends = append(sends, it.id)
			}
		}
	}
	snap := mk(nil, nil)
	storedSnap[snap.id] = true
	size := 1 + rnd.Intn(40)
	perSnap := 1 + rnd.Intn(14)
	for len(all) < size {
		if rnd.Intn(perSnap) == 0 {
			s := mk(nil, snap)
			p := snap.id
			s.snap = &p
			for a := range addrs {
				if heads[a] != nil && rnd.Intn(3) > 0 {
					s.deps = append(s.deps, heads[a].id)
				}
			}
			snap = s
			all = append(all, s)
			byKey[s.id] = s
			continue
		}
		a := rnd.Intn(na)
		if rnd.Intn(3) == 0 {
			a = 0
		}
		it := mk(&addrs[a], heads[a])
		if len(sends) > 0 && rnd.Intn(2) == 0 { // a receive, its request first as the pool does
			k := len(sends) - 1 - rnd.Intn(min(len(sends), 1+rnd.Intn(12)))
			it.deps = append(it.deps, sends[k])
			for x := rnd.Intn(3); x > 0; x-- { // sends inside a contract receive
				it.keys = append(it.keys, hash(it.n, x))
			}
		}
		if it.h > 1 {
			it.deps = append(it.deps, it.prev)
		}
		heads[a] = it
		for _, k := range it.keys {
			byKey[k] = it
			sends = append(sends, k)
		}
		all = append(all, it)
	}
	max := 1 + rnd.Intn(8)
	if rnd.Intn(2) == 0 {
		max = 50
	}
	ver := rnd.Uint64()
	b := batch.NewBatch(func(h types.Hash) error {
		if storedSnap[h] {
			return nil
		}
		return errNot
	}, func(h types.Hash) error {
		if stored[h] {
			return nil
		}
		return errNot
	}, ver, max)

	fail := func(key, f string, a ...interface{}) {
		var s []string
		for _, it := range all {
			d := ""
			for _, x := range it.deps {
				if o := byKey[x]; o != nil {
					d += fmt.Sprintf(" %d", o.n)
				}
			}
			s = append(s, fmt.Sprintf("%v(needs%s; accepted %d)", it, d, it.accepted))
		}
		r.Violate(name, key, "%s\nblocks: %v", fmt.Sprintf(f, a...), s)
	}

	// offer the blocks, some of them too early, again and again as the pool does
	order := append([]*item{}, all...)
	for k := rnd.Intn(6); k > 0; k-- {
		i, j := rnd.Intn(len(order)), rnd.Intn(len(order))
		order[i], order[j] = order[j], order[i]
	}
	seq, full := 0, false
	known := func(it *item) bool {
		for _, x := range it.deps {
			if o := byKey[x]; !stored[x] && (o == nil || o.accepted == 0) {
				return false
			}
		}
		if it.snap != nil {
			if o := byKey[*it.snap]; !storedSnap[*it.snap] && (o == nil || o.accepted == 0) {
				return false
			}
		}
		return true
	}
	for round := 0; round < 8; round++ {
		for _, it := range order {
			if it.accepted > 0 {
				continue
			}
			ok := known(it)
			var err error
			if it.owner == nil || rnd.Intn(8) == 0 {
				err = b.AddSItem(it)
			} else {
				h := snap.id
				err = b.AddAItem(it, &h)
			}
			switch {
			case err == nil && !ok:
				fail("accepted-without-dependency", "block %v was accepted although a block it depends on is neither stored nor accepted", it)
				return
			case err == nil:
				seq++
				it.accepted = seq
			case ok && max >= size+2:
				fail("refused-with-dependencies", "block %v was refused although everything it depends on is there: %v", it, err)
				return
			case ok:
				if err != batch.ErrorArrivedToMax {
					fail("refused-with-dependencies", "block %v was refused although everything it depends on is there: %v", it, err)
					return
				}
				full = true
			case pkgerrors.Cause(err) != batch.ErrorReference && err != batch.ErrorArrivedToMax:
				fail("wrong-refusal", "block %v depends on an unknown block, the answer is %v", it, err)
				return
			}
			if it.accepted > 0 != b.Exists(it.id) {
				fail("exists", "block %v accepted %v, the batch says %v", it, it.accepted > 0, b.Exists(it.id))
				return
			}
		}
	}
	if full && rnd.Intn(2) == 0 {
		r.Count("full batches", 1)
	}
	// run it
	var mu sync.Mutex
	failAt := 0
	if seq > 0 && rnd.Intn(3) == 0 {
		failAt = 1 + rnd.Intn(seq)
	}
	var bad []string
	var failedLevel = -1
	running, maxRun := 0, 0
	levelSeen := -1
	delay := rnd.Intn(4)
	exec := func(snapshot bool) batch.BucketExecutorFn {
		return func(p batch.Batch, l batch.Level, bu batch.Bucket, v uint64) error {
			mu.Lock()
			if v != ver {
				bad = append(bad, fmt.Sprintf("wrong-version: executed with version %d, the batch has %d", v, ver))
			}
			if l.Snapshot() != snapshot {
				bad = append(bad, "wrong-executor: a level was given to the wrong executor")
			}
			if failedLevel >= 0 && l.Index() > failedLevel {
				bad = append(bad, fmt.Sprintf("executed-after-failure: level %d was executed although level %d failed", l.Index(), failedLevel))
			}
			if l.Index() < levelSeen {
				bad = append(bad, fmt.Sprintf("levels-out-of-order: level %d after level %d", l.Index(), levelSeen))
			}
			levelSeen = l.Index()
			running++
			if running > maxRun {
				maxRun = running
			}
			mu.Unlock()
			defer func() { mu.Lock(); running--; mu.Unlock() }()
			for _, x := range bu.Items() {
				it := x.(*item)
				mu.Lock()
				it.runs++
				if (it.owner == nil) != snapshot || it.owner != nil && (bu.Owner() == nil || *bu.Owner() != *it.owner) {
					bad = append(bad, fmt.Sprintf("wrong-owner: %v is in the group of %v", it, bu.Owner()))
				}
				if it.accepted == 0 {
					bad = append(bad, fmt.Sprintf("executed-not-accepted: %v", it))
				}
				if it.runs > 1 {
					bad = append(bad, fmt.Sprintf("executed-twice: %v", it))
				}
				deps := append([]types.Hash{}, it.deps...)
				if it.snap != nil {
					deps = append(deps, *it.snap)
				}
				for _, d := range deps {
					if o := byKey[d]; o != nil && o.state != 2 {
						bad = append(bad, fmt.Sprintf("executed-before-dependency: %v started when %v, which it depends on, was not executed", it, o))
					}
				}
				for _, o := range all {
					if o.accepted == 0 || o == it {
						continue
					}
					if it.owner == nil && o.owner != nil && o.accepted < it.accepted && o.state != 2 {
						bad = append(bad, fmt.Sprintf("snapshot-before-block: snapshot %v started when %v, accepted before it, was not executed", it, o))
					}
					if it.owner != nil && o.owner == nil && o.accepted < it.accepted && o.state != 2 {
						bad = append(bad, fmt.Sprintf("block-before-snapshot: %v started when snapshot %v, accepted before it, was not executed", it, o))
					}
				}
				it.state = 1
				mu.Unlock()
				switch d := delay; {
				case d == 1:
					runtime.Gosched()
				case d == 2 && it.n%3 == 0:
					time.Sleep(time.Duration(it.n%7) * 20 * time.Microsecond)
				}
				mu.Lock()
				if it.accepted == failAt {
					it.state = 3
					if failedLevel < 0 {
						failedLevel = l.Index()
					}
					mu.Unlock()
					return fmt.Errorf("injected at %v", it)
				}
				it.state = 2
				mu.Unlock()
			}
			return nil
		}
	}
	err := b.Batch(exec(true), exec(false))
	mu.Lock()
	defer mu.Unlock()
	if running > 0 {
		fail("returned-while-running", "the batch returned while %d groups were still executing", running)
		return
	}
	for _, x := range bad {
		k := x
		for i := range x {
			if x[i] == ':' {
				k = x[:i]
				break
			}
		}
		fail(k, "%s", x)
		return
	}
	done := 0
	for _, it := range all {
		if it.runs > 0 {
			done++
		}
		if failAt == 0 && it.accepted > 0 && it.state != 2 {
			fail("accepted-not-executed", "block %v was accepted and the batch succeeded, but it was never executed", it)
			return
		}
		if it.accepted == failAt && failAt > 0 && it.state != 3 {
			fail("accepted-not-executed", "block %v was to fail and was never executed, the batch says %v", it, err)
			return
		}
	}
	if (err != nil) != (failAt > 0) {
		fail("result", "a block failed: %v; the batch says %v", failAt > 0, err)
		return
	}
	r.Count("batches", 1)
	r.Count("blocks executed", int64(done))
	if failAt > 0 {
		r.Count("failed batches", 1)
	}
	r.Max("groups in parallel", int64(maxRun))
	r.Max("levels", int64(len(b.Levels())))
	r.Eval(fmt.Sprintf("%d/%d/%v/%d", len(b.Levels()), maxRun, failAt > 0, failedLevel), len(b.Levels()) > 1)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
